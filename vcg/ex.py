"""Symbolic executor over clang's AST: generates the proof obligations.

Paths are enumerated by re-execution: a run consults a decision list; every
two-way branch whose both outcomes are feasible schedules the alternative."""
import glob, os, re, time, zlib
import z3
from vals import *
import frontend as F
import solve
from frontend import TU, strip_cv, callee_text

FEAS_MS = 400


def fair_check(s, ms, *a):
    """check within ms of processor time: on a loaded machine the clock alone says little"""
    c0 = time.process_time()
    r = s.check(*a)
    for _ in range(3):
        if r != z3.unknown or not solve.out_of_time(s.reason_unknown()) or (time.process_time() - c0) * 1000 >= 0.8 * ms:
            break
        s.set('timeout', 3 * ms)
        r = s.check(*a)
        s.set('timeout', ms)
    return r

DEBUG = os.environ.get('VCG_DEBUG')
MAXRUNS = 4000


class PathEnd(Exception):
    pass


class Restart(Exception):
    def __init__(self, prefix=()):
        self.prefix = tuple(prefix)


class ReturnE(Exception):
    def __init__(self, v):
        self.v = v


class BreakE(Exception):
    pass


class ContinueE(Exception):
    pass


# --------------------------------------------------------------------------- program
class Program:
    """index over the translation units of one library"""

    def __init__(self, dirs, extra=(), ns='remoteproxy'):
        self.ns = ns
        self.files = []
        for d in dirs:
            self.files += sorted(glob.glob(os.path.join(F.REPO, d, '*.cpp')) + glob.glob(os.path.join(F.REPO, d, '*/*.cpp')))
        self.files += [os.path.join(F.REPO, e) for e in extra if os.path.exists(os.path.join(F.REPO, e))]
        self.tus = {}
        self.text = {f: open(f, errors='replace').read() for f in self.files}
        self._cls = {}
        self._subs = None

    def tu(self, path):
        if path not in self.tus:
            self.tus[path] = TU(path, (self.ns,))
            base = os.path.basename(path)
            if 'slipdataprocessor' in base:
                self.tus[path].load('SlipDataProcessor')
        return self.tus[path]

    def repo_class(self, name):
        """is a class of this name defined in the repository (outside the library's namespace)?"""
        if not re.match(r'\w+$', name) or name[0] == 'Q':
            return False
        c = self.__dict__.setdefault('_repo_cls', {})
        if name not in c:
            pat = re.compile(r'^(class|struct)\s+%s\b[^;]*$' % name, re.M)
            hs = self.__dict__.setdefault('_hdr', None)
            if hs is None:
                hs = self._hdr = [open(h, errors='replace').read() for h in glob.glob(F.REPO + '/common/*.h') + [x for d in set(os.path.dirname(f) for f in self.files) for x in glob.glob(d + '/*.h')]]
            c[name] = any(pat.search(h) and not re.search(r'namespace\s+%s\b' % self.ns, h) for h in hs)
        return c[name]

    def find_fn(self, q, nparams=None, tu=None, sig=None):
        """Fn with a body for qualified name q (searching its likely TU)."""
        cands = []
        if tu is not None and q in tu.fns:
            cands = tu.fns[q]
        if not cands:
            parts = q.split('::')
            if len(parts) >= 2:
                pat = re.compile(r'\b%s\s*::\s*%s\s*\(' % (re.escape(parts[-2]), re.escape(parts[-1])))
            else:
                pat = re.compile(r'\b%s\s*\(' % re.escape(parts[-1]))
            for f in self.files:
                if pat.search(self.text[f]):
                    t = self.tu(f)
                    if q not in t.fns and '::' in q and not q.startswith(self.ns):
                        t.load(q.split('::')[0])
                    if q in t.fns:
                        cands = t.fns[q]
                        break
            if not cands:
                # inline in a header seen by some loaded TU
                for t in list(self.tus.values()):
                    if q in t.fns:
                        cands = t.fns[q]
                        break
        if nparams is not None:
            c2 = [c for c in cands if c.nparams == nparams]
            cands = c2 or [c for c in cands if c.nparams >= nparams]
        if sig and len(cands) > 1:
            norm = lambda x: re.sub(r'\w+::|\s', '', x)
            cands = [c for c in cands if norm(c.node['type'].get('qualType', '')) == norm(sig)] or cands
        return cands[0] if cands else None

    def enum_const(self, et, name):
        """value of an enumerator whose declaration the current unit's dump left out"""
        et = re.sub(r'^(const |enum )+', '', et).strip()
        scope = et.rsplit('::', 1)[0] if '::' in et else ''
        keys = [et + '::' + name, (scope + '::' if scope else '') + name]
        keys += [self.ns + '::' + k for k in keys]
        for attempt in (0, 1):
            for t in list(self.tus.values()):
                for k in keys:
                    if k in t.enumname:
                        return t.enumname[k]
            if attempt == 0 and scope:
                top = scope.split('::')[-1]
                for f in self.files:
                    if re.search(r'\b%s\s*::' % re.escape(top), self.text[f]):
                        t = self.tu(f)
                        if not any(k in t.enumname for k in keys):
                            t.load(scope.split('::')[0])
                        if any(k in t.enumname for k in keys):
                            break
        return None

    def cls(self, q, tu=None):
        if tu is not None and q in tu.classes:
            return tu.classes[q]
        for t in list(self.tus.values()):
            if q in t.classes:
                return t.classes[q]
        for f in self.files:
            if q.split('::')[-1] in self.text[f]:
                t = self.tu(f)
                if q in t.classes:
                    return t.classes[q]
        return None

    def subclasses(self, q):
        """repo classes derived from q, transitively (closed world: the whole library)"""
        if self._subs is None:
            self._subs = {}
            for f in glob.glob(os.path.join(F.REPO, '*', '*.h')) + glob.glob(os.path.join(F.REPO, '*', '*', '*.h')):
                if 'tests/' in f:
                    continue
                txt = open(f, errors='replace').read()
                for m in re.finditer(r'\bclass\s+(\w+)\s*(?:final\s*)?:\s*([^{;]+)\{', txt):
                    for b in m.group(2).split(','):
                        b = b.split()[-1].split('::')[-1]
                        self._subs.setdefault(b, set()).add(m.group(1))
        out, st = set(), [q.split('::')[-1]]
        while st:
            x = st.pop()
            for s in self._subs.get(x, ()):
                if s not in out:
                    out.add(s)
                    st.append(s)
        return out


# --------------------------------------------------------------------------- locations
class Loc:
    t = None


class LVar(Loc):
    def __init__(self, frame, vid, t, name=''):
        self.frame, self.vid, self.t, self.name = frame, vid, t, name

    def read(self, ex):
        v = self.frame.env.get(self.vid)
        if v is None:
            v = ex.havoc_value(self.t, 'uninit_' + self.name)
            self.frame.env[self.vid] = v
        return v

    def write(self, ex, v):
        self.frame.env[self.vid] = v


class LField(Loc):
    def __init__(self, ref, cls, field, t):
        self.ref, self.cls, self.field, self.t = ref, cls, field, t

    def read(self, ex):
        return ex.getf(self.ref, self.cls, self.field, self.t)

    def write(self, ex, v):
        ex.setf(self.ref, self.cls, self.field, self.t, v)


class LSub(Loc):
    """component of a struct-valued location"""

    def __init__(self, base, f, t):
        self.base, self.f, self.t = base, f, t

    def read(self, ex):
        b = self.base.read(ex)
        return b.f[self.f]

    def write(self, ex, v):
        b = self.base.read(ex)
        f = dict(b.f)
        f[self.f] = v
        self.base.write(ex, StructV(b.name, f))


class LTemp(Loc):
    def __init__(self, v, t):
        self.v, self.t = v, t

    def read(self, ex):
        return self.v

    def write(self, ex, v):
        self.v = v


class LHashElem(Loc):
    def __init__(self, base, key, t):
        self.base, self.key, self.t = base, key, t

    def read(self, ex):
        h = self.base.read(ex)
        return unpack(ex.sel(h.val, self.key), h.vt)

    def write(self, ex, v):
        import qt
        h = self.base.read(ex)
        self.base.write(ex, qt.hash_insert(ex, h, self.key, pack(v, h.vt)))


class LListElem(Loc):
    def __init__(self, base, idx, t):
        self.base, self.idx, self.t = base, idx, t

    def read(self, ex):
        l = self.base.read(ex)
        if isinstance(l, BA):
            import qt
            return qt.ba_at(ex, l, self.idx)
        return unpack(l.s[iv(self.idx)], l.et)

    def write(self, ex, v):
        l = self.base.read(ex)
        i = iv(self.idx)
        if isinstance(l, BA):
            import qt
            n = Length(l.s)
            self.base.write(ex, BA(cat(Extract(l.s, IntVal(0), i), Unit(qt.u8(v)), Extract(l.s, i + 1, n - i - 1))))
        else:
            n = Length(l.s)
            self.base.write(ex, ListV(cat(Extract(l.s, IntVal(0), i), Unit(pack(v, l.et)), Extract(l.s, i + 1, n - i - 1)), l.et))


class Frame:
    def __init__(self, fn, this, tu, cls):
        self.fn, self.this, self.tu, self.cls = fn, this, tu, cls
        self.env, self.types, self.names = {}, {}, {}


class Event:
    """one observable action; args are values"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.a = kw

    def __getattr__(self, k):
        try:
            return self.__dict__['a'][k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join('%s=%s' % (k, _short(v)) for k, v in self.a.items()))


def _short(v):
    if isinstance(v, BA):
        v = v.s
    s = str(v)
    return re.sub(r'\s+', ' ', s)[:160]


class Loop:
    """persistent (across runs) information of one loop instance"""

    def __init__(self, key):
        self.key = key
        self.mod_env, self.mod_heap = set(), {}   # (depth,vid) ; (cls,field) -> set of ref expr | None(all)
        self.extra = set()
        self.cands = None
        self.stable = False


class Obl:
    def __init__(self, name, assumptions, goal, tags, fn, detail=''):
        self.name, self.assumptions, self.goal, self.tags, self.fn, self.detail = name, assumptions, goal, tags, fn, detail


# --------------------------------------------------------------------------- explorer
class Explorer:
    def __init__(self, prog, fname, contracts=None, options=None):
        self.prog, self.fname = prog, fname
        self.needles = set()
        self.loops = {}
        self.obls = []
        self.contracts = contracts or {}
        self.overloads = {}
        for k in self.contracts:
            if '|' in k:
                self.overloads.setdefault(k.split('|')[0], []).append(k)
        self.opt = options or {}
        self.nruns = 0
        self.restarts = 0
        self.inlined = set()
        self.applied = set()
        self.dropped = set()
        self.models = set()
        self.keep = []
        self.pcache = {}
        self.paths = 0
        self.deadline = time.time() + self.opt.get('deadline', 600)

    def explore(self, body):
        """depth-first over decision lists; a Restart(prefix) redoes the paths below prefix"""
        self._obls = {}
        self.donepaths = []
        stack = [[]]
        while stack:
            dec = stack.pop()
            self.nruns += 1
            if self.nruns > self.opt.get('maxruns', MAXRUNS):
                raise ToolLimit('too many paths in ' + self.fname)
            if time.time() > self.deadline:
                raise ToolLimit('time limit while generating obligations of ' + self.fname)
            run = Ex(self, dec)
            try:
                body(run)
                self.donepaths.append(tuple(run.decisions[:run.pos]))
                stack.extend(run.alts)
            except PathEnd:
                stack.extend(run.alts)
            except Restart as r:
                self.restarts += 1
                if self.restarts > self.opt.get('maxrestarts', 1500):
                    raise ToolLimit('loop invariant inference did not converge in ' + self.fname)
                p = list(r.prefix)
                k = len(p)
                self._obls = {key: o for key, o in self._obls.items() if list(o.path[:k]) != p}
                self.donepaths = [d for d in self.donepaths if list(d[:k]) != p]
                stack = [d for d in stack if d[:k] != p]
                stack.extend(d for d in run.alts if d[:k] != p)
                stack.append(p)
            except RecursionError:
                raise ToolLimit('recursion depth')
        self.obls = list(self._obls.values())
        self.paths = len(self.donepaths)


class Ex:
    def __init__(self, xp, decisions):
        self.xp, self.prog = xp, xp.prog
        self.decisions, self.pos, self.alts = list(decisions), 0, []
        self.pc, self.qpc = [], []
        self.qtag = {}        # formula id -> 'inv' (registry invariant) | 'cand' (loop invariant)
        self.heap = {}
        self.heap0 = {}
        self.log = []
        self.conns = []
        self.frames = []
        self.nfresh = 0
        self.tick = 0
        self.solver = None
        self.sidx = 0
        self.hooks = []       # hash access hooks
        self.loopstack = []
        self.ranged = set()
        self.alloc0 = Int('alloc0')
        self.nalloc = 0
        self.ctx = {}
        self.callstack = []
        self.ghost = {}
        self.sender = None
        self.qtepoch = Int('epoch0')

    # ---- logic helpers
    def fresh(self, base, sort):
        self.nfresh += 1
        return Const('%s!%d' % (base, self.nfresh), sort)

    def assume(self, f, quant=False):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_quantifier(f) or quant:
            self.qpc.append(f)
            if isinstance(quant, str):
                self.qtag[f.get_id()] = quant
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if is_true(f):
            return
        if is_false(f):
            raise PathEnd()
        self.pc.append(f)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SolverFor('ALL') if False else z3.Solver()
            self.solver.set('timeout', FEAS_MS)
        while self.sidx < len(self.pc):
            self.solver.add(self.pc[self.sidx])
            self.sidx += 1
        return self.solver

    def feasible(self, c):
        r = fair_check(self._solver(), FEAS_MS, c)
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        c = z3.simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.pos < len(self.decisions):
            ch = self.decisions[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(Not(c)) if t else True
            if not t and not self.feasible(Not(c)):
                raise PathEnd()
            if t and f:
                self.alts.append(self.decisions[:self.pos] + [False])
                ch = True
            else:
                ch = t
            self.decisions.append(ch)
        self.pos += 1
        self.assume(c if ch else Not(c))
        return ch

    def choose(self, n):
        if self.pos < len(self.decisions):
            ch = self.decisions[self.pos]
        else:
            ch = 0
            for i in range(1, n):
                self.alts.append(self.decisions[:self.pos] + [i])
            self.decisions.append(0)
        self.pos += 1
        return ch

    def oblige(self, name, goal, tags=(), detail='', weak=False):
        """record a proof obligation; it is assumed afterwards"""
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        key = (name, goal.get_id(), tuple(p.get_id() for p in self.pc))
        self.xp.keep.append(goal)
        if key in self.xp._obls:
            return
        self.xp.keep.extend(self.pc)
        o = Obl(name, list(self.pc) + list(self.qpc), goal, tuple(tags), self.xp.fname, detail)
        o.path = tuple(self.decisions[:self.pos])
        self.xp._obls[key] = o

    def instantiate(self, *terms):
        """assume the one-variable quantified facts known so far at the given terms"""
        for q in list(self.qpc):
            if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1:
                for t in terms:
                    if q.var_sort(0) == t.sort() and self.qtag.get(q.get_id()) != 'inv':
                        self.assume(z3.substitute_vars(q.body(), t))

    def prove(self, goal, ms=3000):
        if isinstance(goal, bool):
            return goal
        key = (goal.get_id(), tuple(p.get_id() for p in self.pc), len(self.qpc))
        if key in self.xp.pcache:
            return self.xp.pcache[key]
        self.xp.keep.append((goal, list(self.pc)))
        s = z3.Solver()
        s.set('timeout', ms)
        for p in self.pc + self.qpc:
            s.add(p)
        s.add(Not(goal))
        r = fair_check(s, ms) == z3.unsat
        self.xp.pcache[key] = r
        return r

    def prove_many(self, goals, ms=1200, full=None):
        """-> list of True / False / None (no answer within the time)

        full[i]: use the registry invariant as well (needed by invariants about the registry)"""
        out = [None] * len(goals)
        todo = []
        pk = tuple(p.get_id() for p in self.pc)
        for i, g in enumerate(goals):
            if isinstance(g, bool):
                out[i] = g
                continue
            fl = bool(full and full[i])
            key = (g.get_id(), pk, len(self.qpc), fl)
            if key in self.xp.pcache:
                out[i] = self.xp.pcache[key]
            else:
                todo.append((i, g, key, fl))
        if not todo:
            return out
        self.xp.keep.append(list(self.pc))

        def mk(qs, t, seed=0):
            s = z3.Solver()
            s.set('timeout', t)
            if seed:
                s.set('random_seed', seed)
            if qs:
                s.set('smt.mbqi', False)
            for p in self.pc + qs:
                s.add(p)
            return s
        light = [q for q in self.qpc if self.qtag.get(q.get_id()) != 'inv']
        negs = {}
        for i, g, key, fl in todo:
            self.xp.keep.append(g)
            neg = [Not(g)]
            if z3.is_quantifier(g) and g.is_forall():
                sk = [self.fresh('sk', g.var_sort(j)) for j in range(g.num_vars())]
                neg = [Not(z3.substitute_vars(g.body(), *reversed(sk)))]
                for q in self.qpc:
                    if self.qtag.get(q.get_id()) == 'cand' and z3.is_quantifier(q) and q.num_vars() == len(sk) and all(q.var_sort(j) == sk[j].sort() for j in range(len(sk))):
                        neg.append(z3.substitute_vars(q.body(), *reversed(sk)))
            negs[i] = neg
        s0 = mk([], ms)
        many = any(fl for _, _, _, fl in todo)

        def one(item):
            i, g, key, fl = item
            qs = self.qpc if fl else light
            neg = negs[i]
            s0.push()
            s0.add(*neg)
            r = fair_check(s0, ms)
            s0.pop()
            if r == z3.sat and not qs:
                return False
            if r == z3.unsat:
                return True
            for seed in (0, 3, 11) if fl or not many else (0,):
                t = ms if many and not fl else 3 * ms
                s2 = mk(qs, t, seed)
                s2.add(*neg)
                r = fair_check(s2, t)
                if r == z3.unsat:
                    return True
                if r == z3.sat or 'incomplete' in s2.reason_unknown():
                    return False
            return None
        for (i, g, key, fl), res in zip(todo, solve.par_map(one, todo)):
            out[i] = res
            self.xp.pcache[key] = res
        return out

    # ---- heap
    def harr(self, cls, field, t):
        key = (cls, field)
        if key not in self.heap:
            self.known_field(cls, field, t)
            a = Const('H_%s_%s' % (cls.split('::')[-1], field), ArraySort(IntSort(), zsort(t)))
            self.heap[key] = a
            self.heap0.setdefault(key, a)
            self.ghost.setdefault('types', {})[key] = t
        return self.heap[key]

    def known_field(self, cls, field, t):
        """a contract that names a field the class does not have (any more) says nothing about the code"""
        memo = self.prog.__dict__.setdefault('field_memo', {})
        key = (cls, field, str(zsort(t)))
        if key not in memo:
            memo[key] = None
            c = self.prog.cls(cls) if '::' in cls else None
            if c is not None and c.fields:
                fd = c.fields.get(field)
                if fd is None:
                    memo[key] = '%s has no field %s' % (cls, field)
                else:
                    try:
                        d = zsort(self.norm(parse_type(F._qt(fd['type']))))
                        if str(d) != str(zsort(t)):
                            memo[key] = 'field %s::%s is of another type' % (cls, field)
                    except (ToolLimit, KeyError, AttributeError, TypeError):
                        pass
        if memo[key]:
            raise ToolLimit(memo[key])

    def sel(self, arr, idx):
        """read with syntactic read-over-write"""
        idx = iv(idx) if isinstance(idx, int) else idx
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            a, i, v = arr.children()
            if i.eq(idx):
                return v
            if is_int_value(i) and is_int_value(idx) or (z3.is_string_value(i) and z3.is_string_value(idx)):
                arr = a
                continue
            d = self._distinct(i, idx)
            if d:
                arr = a
                continue
            break
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return arr.arg(0)
        return Select(arr, idx)

    def _distinct(self, i, j):
        """cheap: two fresh allocations, or allocation versus 'older' expression is not decided here"""
        for (x, y) in ((i, j), (j, i)):
            if x.get_id() in self.ctx.get('alloc_ids', {}) and y.get_id() in self.ctx.get('alloc_ids', {}):
                return True
        return False

    def getf(self, ref, cls, field, t):
        if self.is_subobj(t):
            return self.subref(ref, cls, field)
        e = self.sel(self.harr(cls, field, t), ref)
        v = unpack(e, t)
        self.type_inv(v, t)
        for h in self.hooks:
            h(self, 'getf', ref, cls, field, v)
        return v

    def setf(self, ref, cls, field, t, v):
        arr = self.harr(cls, field, t)
        r = iv(ref) if isinstance(ref, int) else ref
        e = pack(v, t)
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(r):
            arr = arr.arg(0)
        self.heap[(cls, field)] = Store(arr, r, e)

    def is_subobj(self, t):
        return t[0] == 'cls' and self.is_object_class(t[1])

    def subref(self, ref, cls, field):
        r = uf('sub_%s_%s' % (cls.split('::')[-1], field), [ref], IntSort())
        k = ('sub', r.get_id())
        if k not in self.ranged:
            self.ranged.add(k)
            self.xp.keep.append(r)
            self.assume(r < 0)    # sub-objects live apart from heap allocations
        return r

    def is_object_class(self, n):
        import qt
        if n in qt.QOBJECT_CLASSES:
            return True
        c = self.lookup_cls(n)
        return c is not None and self.derives_qobject(c)

    def derives_qobject(self, c):
        import qt
        for b in c.bases:
            if b in qt.QOBJECT_CLASSES:
                return True
            bc = self.lookup_cls(b)
            if bc is not None and bc is not c and self.derives_qobject(bc):
                return True
        return False

    def lookup_cls(self, n):
        tu = self.frames[-1].tu if self.frames else None
        if tu is None:
            return None
        if n in tu.classes:
            return tu.classes[n]
        if '::' not in n:
            q = self.prog.ns + '::' + n
            if q in tu.classes:
                return tu.classes[q]
            for k in tu.classes:
                if k.endswith('::' + n):
                    return tu.classes[k]
        top = n.split('::')[0]
        if top != self.prog.ns and self.prog.repo_class(top) and top not in tu.filters_done:
            tu.load(top)
            return tu.classes.get(n)
        return None

    def type_inv(self, v, t):
        """well-typedness facts of a freshly read value"""
        k = t[0]
        if k == 'int':
            if isinstance(v, int):
                return
            key = ('r', v.get_id(), t)
            if key in self.ranged or is_int_value(v):
                return
            self.ranged.add(key)
            self.xp.keep.append(v)
            bits, sg = t[1], t[2]
            if bits < 64 or not sg:
                if sg:
                    self.assume(And(v >= -(1 << (bits - 1)), v < (1 << (bits - 1))))
                else:
                    self.assume(And(v >= 0, v < (1 << bits)))
        elif isinstance(v, BA):
            if is_false(b2(v.null)):
                return
            key = ('ba', v.s.get_id(), b2(v.null).get_id())
            if key not in self.ranged:
                self.ranged.add(key)
                self.xp.keep.append((v.s, v.null))
                self.assume(Implies(b2(v.null), Length(v.s) == 0))
        elif isinstance(v, HashV):
            if is_int_value(iv(v.cnt)):
                return
            key = ('h', iv(v.cnt).get_id())
            if key not in self.ranged:
                self.ranged.add(key)
                self.xp.keep.append(v.cnt)
                self.assume(v.cnt >= 0)
        elif isinstance(v, StructV):
            for f, ft in STRUCTS[v.name]:
                self.type_inv(v.f[f], ft)

    def havoc_value(self, t, name='h'):
        if t[0] == 'cls' and self.is_subobj(t):
            raise ToolLimit('havoc of object value')
        if t[0] in ('lambda', 'fn', 'void'):
            return None
        import qt
        if t[0] == 'cls' and t[1] in qt.PYKINDS:
            return qt.havoc_py(self, t, name)
        v = unpack(self.fresh(name, zsort(t)), t)
        self.type_inv(v, t)
        return v

    # ---- types
    def ty(self, node):
        return self.norm(parse_type(F._qt(node['type'])))

    def norm(self, t):
        """resolve class names to repo-qualified ones, enums to int"""
        key = (id(self.frames[-1].tu) if self.frames else 0, t)
        c = self.prog.__dict__.setdefault('_ncache', {})
        if key in c:
            return c[key]
        r = t
        k = t[0]
        if k == 'ptr':
            r = ('ptr', self.norm(t[1]))
        elif k == 'tmpl':
            r = ('tmpl', t[1], tuple(self.norm(x) for x in t[2]))
            if t[1] == 'QFlags':
                r = ('int', 32, True)
            elif t[1] in ('QPair', 'std::pair'):
                pair_name(r)
        elif k == 'cls':
            n = t[1]
            tu = self.frames[-1].tu if self.frames else None
            if tu is not None:
                e = self._enum_name(tu, n)
                if e:
                    r = ('int', 32, True)
                else:
                    cl = self.lookup_cls(n)
                    if cl is not None:
                        r = ('cls', cl.q)
                        if not self.derives_qobject(cl) and cl.q not in STRUCTS and cl.fields:
                            STRUCTS[cl.q] = []
                            STRUCTS[cl.q] = [(fn, self.norm(parse_type(F._qt(fd['type'])))) for fn, fd in cl.fields.items()]
            import qt
            if r[0] == 'cls' and r[1] in ('QStringList', 'QVariantMap', 'QVariantList'):
                r = self.norm(parse_type(ALIAS[r[1]]))
            if r[0] == 'cls' and qt.is_qt_enum(r[1]):
                r = ('int', 32, True)
        c[key] = r
        return r

    def _enum_name(self, tu, n):
        s = tu.__dict__.get('_enums')
        if s is None:
            s = set()
            for i, d in tu.decl.items():
                if d.get('kind') == 'EnumDecl':
                    s.add(tu.qual[i])
            tu._enums = s
        if n in s or (self.prog.ns + '::' + n) in s:
            return True
        fr = self.frames[-1] if self.frames else None
        if fr is not None and fr.cls and (fr.cls + '::' + n) in s:
            return True
        if '::' not in n:
            return any(q.endswith('::' + n) for q in s)
        return any(q.endswith('::' + n) for q in s)

    # ---- rvalues / locations
    def rv(self, node):
        v = self.ev(node)
        return self.load(v)

    def load(self, v):
        while isinstance(v, Loc):
            v = v.read(self)
        return v

    def loc(self, node):
        v = self.ev(node)
        if isinstance(v, Loc):
            return v
        return LTemp(v, self.ty(node))

    def tobool(self, v):
        if isinstance(v, (bool,)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, (PtrTo, Closure, FnRef, CStr)):
            return True
        if z3.is_expr(v):
            if v.sort() == BoolSort():
                return v
            if v.sort() == IntSort():
                return v != 0
        raise ToolLimit('bool of %r' % (v,))

    # ---- expressions
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise ToolLimit('expression kind ' + k)
        return m(n)

    def _inner(self, n):
        return n.get('inner', [])

    def e_ParenExpr(self, n):
        return self.ev(n['inner'][0])

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_CXXThisExpr(self, n):
        return self.frames[-1].this

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return n['value'] in (True, 'true')

    def e_CXXNullPtrLiteralExpr(self, n):
        return 0

    def e_GNUNullExpr(self, n):
        return 0

    def e_FloatingLiteral(self, n):
        return z3.RealVal(n['value'])

    def e_StringLiteral(self, n):
        v = n['value']
        m = re.match(r'^(?:u8|u|U|L)?"(.*)"$', v, re.S)
        s = m.group(1) if m else v
        out = bytearray()
        i = 0
        esc = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34, "'": 39, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
        while i < len(s):
            c = s[i]
            if c == '\\' and i + 1 < len(s):
                d = s[i + 1]
                if d == 'x':
                    mm = re.match(r'[0-9a-fA-F]{1,2}', s[i + 2:])
                    out.append(int(mm.group(0), 16))
                    i += 2 + len(mm.group(0))
                    continue
                mm = re.match(r'[0-7]{1,3}', s[i + 1:])
                if mm:
                    out.append(int(mm.group(0), 8) & 255)
                    i += 1 + len(mm.group(0))
                    continue
                out.append(esc.get(d, ord(d)))
                i += 2
                continue
            out.extend(c.encode('utf-8'))
            i += 1
        return CStr(bytes(out))

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        did = rd['id']
        tu = self.frames[-1].tu
        if k == 'EnumConstantDecl':
            if did in tu.enumconst:
                return tu.enumconst[did]
            import qt
            et = F._qt(rd.get('type', {}))
            if not re.match(r'^(const )?(enum )?(Q[A-Z]|Qt::)', et):
                v = self.xp.prog.enum_const(et, rd.get('name'))
                if v is None:
                    raise ToolLimit('value of enumerator %s::%s' % (et, rd.get('name')))
                return v
            return qt.enum_value(rd.get('name'), et)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'ImplicitParamDecl'):
            fr = self.frames[-1]
            if did in fr.env or did in fr.types:
                v = fr.env.get(did)
                if isinstance(v, Loc):
                    return v
                return LVar(fr, did, fr.types.get(did) or self.ty(rd), rd.get('name', ''))
            # global / static
            q = tu.qual.get(did)
            cid = tu.canon.get(did, did)
            q = q or tu.qual.get(cid) or ('global::' + rd.get('name', '?'))
            t = self.ty(rd)
            return LField(IntVal(0), 'static', q, t)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            q = tu.qual.get(tu.canon.get(did, did)) or tu.qual.get(did)
            if q is None:
                q = callee_text(tu, n) or rd.get('name')
                if '::' not in q:
                    q = rd.get('name')
            return FnRef(q, rd)
        raise ToolLimit('DeclRef ' + k)

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        name = n.get('name', '')
        tu = self.frames[-1].tu
        did = n.get('referencedMemberDecl')
        t = self.ty(n)
        if did in tu.enumconst:
            return tu.enumconst[did]
        fq = tu.qual.get(did)
        owner = tu.parent.get(did)
        d = tu.decl.get(did)
        if d is not None and d.get('kind') == 'VarDecl':
            return LField(IntVal(0), 'static', fq, t)
        bv = self.ev(base)
        if n.get('isArrow'):
            p = self.load(bv)
            if isinstance(p, PtrTo):
                bv = p.loc
            elif isinstance(p, Py):
                return self._qt_member(p, name, t)
            else:
                if owner is None:
                    raise ToolLimit('member %s of unmodelled type' % name)
                self.nonnull(p, n)
                return LField(p, owner, name, t)
        if owner is None:
            return self._qt_member(bv, name, t)
        if isinstance(bv, Loc):
            v = bv.t if bv.t else None
            val = None
            if v is not None and v[0] == 'cls' and self.is_subobj(v):
                r = self.load(bv)
                return LField(r, owner, name, t)
            return LSub(bv, name, t)
        if isinstance(bv, StructV):
            return bv.f[name]
        if z3.is_expr(bv):
            return LField(bv, owner, name, t)
        raise ToolLimit('member ' + name)

    def _qt_member(self, bv, name, t):
        if isinstance(bv, Loc):
            v = bv.read(self)
            if isinstance(v, StructV) and name in v.f:
                return LSub(bv, name, t)
            if isinstance(v, Py) and name in v.__dict__:
                return v.__dict__[name]
        if isinstance(bv, StructV) and name in bv.f:
            return bv.f[name]
        if isinstance(bv, Py) and name in bv.__dict__:
            return bv.__dict__[name]
        raise ToolLimit('Qt member ' + name)

    def nonnull(self, p, n, what=''):
        if isinstance(p, (PtrTo, Closure)):
            return
        fr = self.frames[-1]
        if fr.this is not None and z3.is_expr(p) and z3.is_expr(fr.this) and p.eq(fr.this):
            return
        if isinstance(p, int):
            g = BoolVal(p != 0)
        else:
            key = ('nn', p.get_id())
            if key in self.ranged:
                return
            self.ranged.add(key)
            self.xp.keep.append(p)
            g = p != 0
        self.oblige('no-null-dereference', g, ('safety',), self.where(n))
        self.assume(g)

    def where(self, n):
        fr = self.frames[-1]
        r = n.get('range', {}).get('begin', {})
        for kk in ('expansionLoc', 'spellingLoc'):
            if kk in r:
                r = r[kk]
                break
        off = r.get('offset')
        src = fr.tu.src
        ln = src.count('\n', 0, off) + 1 if off is not None and off <= len(src) else 0
        return '%s:%d' % (os.path.relpath(fr.tu.path, F.REPO), ln)

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.rv(sub)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'BaseToDerived', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerivedMemberPointer',
                  'DerivedToBaseMemberPointer', 'Dynamic', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic'):
            return self.ev(sub)
        if ck == 'NullToPointer' or ck == 'NullToMemberPointer':
            return 0
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        if ck == 'PointerToBoolean' or ck == 'IntegralToBoolean':
            return self.tobool(self.rv(sub))
        if ck == 'FloatingToBoolean':
            return self.rv(sub) != 0
        if ck == 'IntegralCast':
            v = self.rv(sub)
            return self.icast(v, self.ty(sub), self.ty(n))
        if ck == 'IntegralToFloating':
            v = self.rv(sub)
            return z3.ToReal(iv(self.b2i(v)))
        if ck == 'FloatingToIntegral':
            v = self.rv(sub)
            return z3.ToInt(v)
        if ck == 'FloatingCast':
            return self.rv(sub)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return self.rv(sub)
        raise ToolLimit('cast ' + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n):
        raise ToolLimit('dynamic_cast')

    def b2i(self, v):
        if isinstance(v, bool):
            return 1 if v else 0
        if z3.is_expr(v) and v.sort() == BoolSort():
            return If(v, IntVal(1), IntVal(0))
        return v

    def icast(self, v, ft, tt):
        v = self.b2i(v)
        if tt[0] == 'bool':
            return self.tobool(v)
        if tt[0] != 'int':
            return v
        if ft[0] == 'int' or ft[0] == 'bool':
            fb, fs = (ft[1], ft[2]) if ft[0] == 'int' else (1, False)
            tb, ts = tt[1], tt[2]
            if isinstance(v, int):
                return wrapc(v, tb, ts)
            if (fs == ts and fb <= tb) or (not fs and ts and fb < tb):
                return v
            return self.wrap(v, tb, ts, fb, fs)
        if isinstance(v, int):
            return wrapc(v, tt[1], tt[2])
        if isinstance(v, Opaque):
            # an enumerator of a Qt type kept as an opaque value: enumerators of 32 bits
            self.assume(And(iv(v.e) >= -2 ** 31, iv(v.e) < 2 ** 31))
            return iv(v.e)
        return self.wrap(v, tt[1], tt[2])

    def wrap(self, v, bits, signed, fb=None, fs=None):
        if isinstance(v, int):
            return wrapc(v, bits, signed)
        if not signed and fs and fb is not None and fb <= bits and nonneg(v):
            return v
        if not signed:
            if bits == 8:
                u = unschar(v)
                if u is not None:
                    return u
            if bits >= 64 and fb is not None and fs:
                return If(v < 0, v + (1 << bits), v)
            if bits == 32 and fb == 32 and fs:
                return If(v < 0, v + (1 << 32), v)
            return v % (1 << bits)
        if bits == 8 and fb == 8 and not fs:
            return schar(v)
        if fb is not None and not fs and fb == bits:
            return If(v >= (1 << (bits - 1)), v - (1 << bits), v)
        if bits == 8:
            m = v % 256
            return If(m >= 128, m - 256, m)
        m = v % (1 << bits)
        return If(m >= (1 << (bits - 1)), m - (1 << bits), m)

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '!':
            b = self.tobool(self.rv(sub))
            return (not b) if isinstance(b, bool) else Not(b)
        if op == '&':
            s = sub
            while s['kind'] == 'ParenExpr':
                s = s['inner'][0]
            if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
                return self.ev(s)
            l = self.ev(s)
            if isinstance(l, Loc):
                if l.t is not None and self.is_subobj(l.t):
                    return self.load(l)
                return PtrTo(l)
            if isinstance(l, FnRef):
                return l
            return PtrTo(LTemp(l, self.ty(sub)))
        if op == '*':
            p = self.rv(sub)
            if isinstance(p, PtrTo):
                return p.loc
            t = self.ty(n)
            if t[0] == 'cls' and self.is_subobj(t):
                self.nonnull(p, n)
                return p
            if isinstance(p, IterV):
                import qt
                return qt.iter_deref(self, p)
            raise ToolLimit('deref')
        if op in ('++', '--'):
            l = self.loc(sub)
            old = l.read(self)
            t = self.ty(n)
            if isinstance(old, IterV):
                import qt
                new = qt.iter_step(self, old, 1 if op == '++' else -1)
            else:
                new = self.arith('+' if op == '++' else '-', old, 1, t)
            l.write(self, new)
            return old if n.get('isPostfix') else l
        v = self.b2i(self.rv(sub))
        if op == '-':
            return self.arith('-', 0, v, self.ty(n))
        if op == '+':
            return v
        if op == '~':
            t = self.ty(n)
            if isinstance(v, int):
                return wrapc(~v, t[1], t[2])
            return self.wrap(-v - 1, t[1], t[2])
        raise ToolLimit('unary ' + op)

    def arith(self, op, a, b, t):
        a, b = self.b2i(a), self.b2i(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op in ('/', '%'):
                if b == 0:
                    self.oblige('no-division-by-zero', False, ('safety',))
                    raise PathEnd()
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                r = q if op == '/' else a - q * b
            elif op == '&':
                r = a & b
            elif op == '|':
                r = a | b
            elif op == '^':
                r = a ^ b
            elif op == '<<':
                r = a << b
            elif op == '>>':
                r = a >> b
            else:
                raise ToolLimit('op ' + op)
            return wrapc(r, t[1], t[2]) if t[0] == 'int' else r
        if t[0] == 'float' or (z3.is_expr(a) and a.sort() == z3.RealSort()):
            a, b = iv(a), iv(b)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
        unsigned = t[0] == 'int' and not t[2]
        A, B = iv(a), iv(b)
        if op == '+':
            r = A + B
        elif op == '-':
            r = A - B
        elif op == '*':
            r = A * B
        elif op in ('/', '%'):
            self.oblige('no-division-by-zero', B != 0, ('safety',))
            if unsigned:
                r = A / B if op == '/' else A % B
                return r
            q = If(A >= 0, A / B, -((-A) / B))
            r = q if op == '/' else A - q * B
        elif op in ('&', '|', '^', '<<', '>>'):
            r = self.bitop(op, a, b, t)
            return r
        else:
            raise ToolLimit('op ' + op)
        if unsigned:
            r = z3.simplify(r)
            bits = t[1]
            if bits >= 32:
                # counters: exact modular semantics
                return r % (1 << bits)
            return self.wrap(r, bits, False)
        return r

    def bitop(self, op, a, b, t):
        if op == '<<' and isinstance(b, int):
            r = iv(a) * (1 << b)
            return r % (1 << t[1]) if not t[2] else r
        if op == '>>' and isinstance(b, int):
            return iv(a) / (1 << b)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0:
                    if y == 0:
                        return 0
                    if (y & (y + 1)) == 0:
                        return iv(x) % (y + 1)
                    low = (y & -y)
                    z = y // low
                    if (z & (z + 1)) == 0:
                        return ((iv(x) / low) % (z + 1)) * low
        bits = t[1] if t[0] == 'int' else 32
        X, Y = z3.Int2BV(iv(a), bits), z3.Int2BV(iv(b), bits)
        r = {'&': lambda: X & Y, '|': lambda: X | Y, '^': lambda: X ^ Y, '<<': lambda: X << Y, '>>': lambda: z3.LShR(X, Y)}[op]()
        return z3.BV2Int(r, is_signed=bool(t[0] == 'int' and t[2]))

    def compare(self, op, a, b):
        if isinstance(a, (PtrTo, Closure, FnRef)) or isinstance(b, (PtrTo, Closure, FnRef)):
            same = a is b or (isinstance(a, PtrTo) and isinstance(b, PtrTo) and a.loc is b.loc)
            if op == '==':
                return same
            if op == '!=':
                return not same
            raise ToolLimit('pointer compare')
        if isinstance(a, CStr) or isinstance(b, CStr):
            raise ToolLimit('char* compare')
        a, b = self.b2i(a) if not (z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort()) else a, b
        b = self.b2i(b) if not (z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort()) else b
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        A, B = iv(a), iv(b)
        return {'==': lambda: A == B, '!=': lambda: A != B, '<': lambda: A < B, '>': lambda: A > B, '<=': lambda: A <= B,
                '>=': lambda: A >= B}[op]()

    def e_BinaryOperator(self, n):
        op = n['opcode']
        L, R = n['inner']
        if op == '&&' or op == '||':
            a = self.tobool(self.rv(L))
            av = self.branch(a)
            if op == '&&' and not av:
                return False
            if op == '||' and av:
                return True
            b = self.tobool(self.rv(R))
            return b
        if op == '=':
            # C++11: value of RHS first for scalars is fine (no interference in this code)
            v = self.rv(R)
            l = self.loc(L)
            l.write(self, self.coerce(v, l.t or self.ty(L)))
            return l
        if op == ',':
            self.ev(L)
            return self.ev(R)
        a = self.rv(L)
        b = self.rv(R)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, IterV) or isinstance(b, IterV):
                import qt
                return qt.iter_cmp(self, op, a, b)
            return self.compare(op, a, b)
        t = self.ty(n)
        if t[0] == 'ptr':
            raise ToolLimit('pointer arithmetic')
        return self.arith(op, a, b, t)

    def coerce(self, v, t):
        if t is None:
            return v
        if t[0] == 'bool':
            return self.tobool(v) if not isinstance(v, bool) else v
        if t[0] == 'int' and isinstance(v, (bool,)):
            return 1 if v else 0
        return v

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        L, R = n['inner']
        b = self.rv(R)
        l = self.loc(L)
        a = l.read(self)
        lt = self.ty(L)
        if lt[0] == 'float' or (z3.is_expr(a) and a.sort() == z3.RealSort()):
            l.write(self, self.arith(op, a, b, ('float',)))
            return l
        if lt[0] == 'bool':
            r = self.arith(op, a, b, ('int', 32, True))
            l.write(self, self.tobool(r))
            return l
        ct = n.get('computeResultType')
        t2 = self.norm(parse_type(F._qt(ct))) if ct else lt
        if t2[0] != 'int':
            t2 = lt
        r = self.arith(op, a, b, t2)
        if t2 != lt and lt[0] == 'int':
            r = self.icast(r, t2, lt)
        l.write(self, r)
        return l

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.branch(self.tobool(self.rv(c))):
            return self.ev(a)
        return self.ev(b)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType')
        if n.get('name') == 'sizeof' and at:
            t = parse_type(F._qt(at))
            if t[0] == 'int':
                return t[1] // 8
        if n.get('inner'):
            t = self.ty(n['inner'][0])
            if t[0] == 'int':
                return t[1] // 8
        return 8

    def e_ArraySubscriptExpr(self, n):
        b = self.rv(n['inner'][0])
        i = self.rv(n['inner'][1])
        if isinstance(b, Py) and b.kind == 'charptr':
            import qt
            return qt.charptr_at(self, b, i)
        if isinstance(b, CStr) and isinstance(i, int):
            bb = b.b + b'\0'
            return bb[i] if bb[i] < 128 else bb[i] - 256
        raise ToolLimit('array subscript')

    def e_InitListExpr(self, n):
        t = self.ty(n)
        if is_list_type(t):
            s = Empty(zsort(t))
            for c in self._inner(n):
                s = cat(s, Unit(pack(self.conv(self.rv(c), t[2][0]), t[2][0])))
            return ListV(s, t[2][0])
        if is_struct(t):
            f = {}
            kids = self._inner(n)
            for (fn, ft), c in zip(STRUCTS[t[1]], kids):
                f[fn] = self.rv(c)
            for fn, ft in STRUCTS[t[1]][len(kids):]:
                f[fn] = unpack(default_z(ft), ft)
            return StructV(t[1], f)
        kids = self._inner(n)
        if len(kids) == 1:
            return self.ev(kids[0])
        if not kids:
            return unpack(default_z(t), t)
        return Py('initlist', items=[self.rv(c) for c in kids])

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_ImplicitValueInitExpr(self, n):
        t = self.ty(n)
        return unpack(default_z(t), t)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultArgExpr(self, n):
        return Py('default')

    def e_CXXDefaultInitExpr(self, n):
        raise ToolLimit('default init outside ctor')

    def e_LambdaExpr(self, n):
        fr = self.frames[-1]
        env = dict(fr.env)
        # names captured by reference keep their location, everything else is a snapshot
        return Closure(n, env, fr.this, fr.tu, fr.cls)

    def e_CXXNewExpr(self, n):
        t = self.ty(n)
        ct = t[1]
        init = next((c for c in self._inner(n) if c.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ExprWithCleanups', 'InitListExpr', 'ParenListExpr')), None)
        while init is not None and init['kind'] == 'ExprWithCleanups':
            init = init['inner'][0]
        args = self._inner(init) if init is not None else []
        return self.new_object(ct, args, n)

    def alloc(self):
        self.nalloc += 1
        r = self.fresh('new', IntSort())
        self.assume(r == self.alloc0 + (self.nalloc - 1))
        self.assume(r > 0)
        self.ctx.setdefault('alloc_ids', {})[r.get_id()] = r
        self.xp.keep.append(r)
        self.ranged.add(('nn', r.get_id()))
        return r

    def new_object(self, ct, argnodes, n):
        if ct[0] != 'cls':
            raise ToolLimit('new of %r' % (ct,))
        cls = ct[1]
        r = self.alloc()
        c = self.lookup_cls(cls)
        import qt
        if c is None:
            args = [self.rv(a) for a in argnodes]
            qt.construct_object(self, cls, r, args, n)
            return r
        self.log.append(Event('New', cls=c.q, ref=r))
        con = self.contract(c.q + '::' + c.q.split('::')[-1])
        if con is not None:
            self.apply_contract(con, r, argnodes, n, c.q + '::' + c.q.split('::')[-1])
            return r
        fn = self.find_ctor(c, argnodes)
        self.call_fn(fn, r, argnodes=argnodes, is_ctor=True, node=n)
        return r

    def find_ctor(self, c, argnodes):
        name = c.q.split('::')[-1]
        fn = self.prog.find_fn(c.q + '::' + name, len(argnodes), self.frames[-1].tu)
        if fn is None:
            raise ToolLimit('no constructor body for ' + c.q)
        return fn

    # -------- calls
    def contract(self, q, sig=None):
        """an overload may have a contract of its own: 'name|part of its signature'"""
        if sig:
            for k in self.xp.overloads.get(q, ()):
                if k.split('|', 1)[1] in sig:
                    return self.xp.contracts[k]
        return self.xp.contracts.get(q)

    def e_CallExpr(self, n):
        cal = n['inner'][0]
        args = n['inner'][1:]
        c = cal
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            ref = self.ev(c)
            return self.call_named(ref, args, n, c)
        if c['kind'] == 'MemberExpr':
            # static member through object, or function pointer member
            return self.e_CXXMemberCallExpr(n)
        f = self.rv(cal)
        if isinstance(f, Closure):
            return self.call_closure(f, [self.ev(a) for a in args], n)
        raise ToolLimit('indirect call')

    def call_named(self, ref, args, n, c):
        tu = self.frames[-1].tu
        rd = ref.decl
        did = rd['id']
        import qt
        if did in tu.decl or ref.q.startswith(self.prog.ns + '::') or ref.q.split('::')[0] in ('SlipDataProcessor',):
            q = ref.q
            # out-of-line redeclarations carry the right qualified name already
            sig = rd.get('type', {}).get('qualType')
            con = self.contract(q, sig)
            if con is not None and not con.inline_in(self):
                return self.apply_contract(con, None, args, n, q)
            fn = self.prog.find_fn(q, len(args), tu, sig)
            if fn is not None:
                return self.call_fn(fn, None, argnodes=args, node=n)
        if qt.has_func(ref.q, rd.get('name')):
            return qt.call_func(self, ref.q, args, n)
        # file-static helper outside the namespace?
        nm = rd.get('name')
        con = self.contract(nm)
        if con is not None:
            return self.apply_contract(con, None, args, n, nm)
        if re.search(r'\b%s\s*\(' % re.escape(nm), tu.src) and re.search(r'\b%s\s*\([^;{}]*\)\s*(?:const)?\s*\{' % re.escape(nm), tu.src):
            tu.load(nm)
            fn = self.prog.find_fn(nm, len(args), tu)
            if fn is not None:
                return self.call_fn(fn, None, argnodes=args, node=n)
        return qt.call_func(self, ref.q, args, n)

    def e_CXXMemberCallExpr(self, n):
        cal = n['inner'][0]
        args = n['inner'][1:]
        while cal['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            cal = cal['inner'][0]
        if cal['kind'] != 'MemberExpr':
            raise ToolLimit('member call through ' + cal['kind'])
        name = cal['name']
        base = cal['inner'][0]
        tu = self.frames[-1].tu
        did = cal.get('referencedMemberDecl')
        d = tu.decl.get(did)
        import qt
        q, owner = tu.qual.get(did), tu.parent.get(did)
        if d is None:
            # declared in the repository, but seen through another dump of this unit
            d, q, owner = self.member_by_type(qt.base_type(self, base), name, len(args))
        if d is not None:
            if n.get('valueCategory') is None and False:
                pass
            bv = self.ev(base)
            if cal.get('isArrow'):
                this = self.load(bv)
                if isinstance(this, PtrTo):
                    this = this.loc
            else:
                this = bv
                if isinstance(this, Loc) and this.t is not None and self.is_subobj(this.t):
                    this = self.load(this)
            return self.call_method(q, owner, name, this, args, n, d, qualified=self._qualified(cal))
        # Qt method
        return qt.call_method(self, base, cal, name, args, n)

    def member_by_type(self, bt, name, nargs):
        t = bt[1] if bt[0] == 'ptr' else bt
        todo = [t[1]] if t[0] == 'cls' else []
        while todo:
            c = self.lookup_cls(todo.pop(0))
            if c is None:
                continue
            ms = [m for m in c.methods.get(name, []) if sum(x.get('kind') == 'ParmVarDecl' for x in m.get('inner', [])) == nargs]
            if len(ms) == 1:
                return ms[0], c.q + '::' + name, c.q
            if ms:
                raise ToolLimit('overloads of %s::%s' % (c.q, name))
            todo += c.bases
        return None, None, None

    def _qualified(self, cal):
        """explicitly qualified call  Base::f()  (no virtual dispatch)"""
        t = callee_text(self.frames[-1].tu, cal)
        return bool(re.search(r'\w+\s*::\s*%s$' % re.escape(cal['name']), t))

    def call_method(self, q, owner, name, this, args, n, decl, qualified=False):
        if z3.is_expr(this) or isinstance(this, int):
            self.nonnull(this, n)
        cl = self.lookup_cls(owner)
        if name == 'metaObject' and not args:       # generated by moc
            import qt
            return qt.m_object(self, owner, this, name, [], n, True)
        # a signal: declared in a Q_OBJECT class, no body anywhere
        virt = decl.get('virtual') or any(a.get('kind') in ('OverrideAttr',) for a in decl.get('inner', []))
        tgt = q
        if cl is not None and (virt or name in cl.virtuals) and not qualified:
            # the most derived override visible from the static type of `this`
            tgt = self.devirt(q, owner, name, this, n)
        con = self.contract(tgt)
        if con is not None and not con.inline_in(self):
            return self.apply_contract(con, this, args, n, tgt)
        if tgt != q or not decl.get('pure'):
            fn = self.prog.find_fn(tgt, len(args), self.frames[-1].tu, decl.get('type', {}).get('qualType'))
            if fn is not None:
                return self.call_fn(fn, this, argnodes=args, node=n)
        if decl.get('pure') or virt:
            raise ToolLimit('virtual call %s has no contract' % q)
        if cl is not None and self.derives_qobject(cl) and F._qt(decl['type']).startswith('void'):
            vals = [self.rv(a) for a in args]
            return self.emit(q, this, vals, n)
        raise ToolLimit('no body for ' + q)

    def devirt(self, q, owner, name, this, n):
        subs = self.prog.subclasses(owner)
        impl = []
        for s in subs:
            c = self.prog.cls(self.prog.ns + '::' + s, self.frames[-1].tu)
            if c is not None and name in c.methods and any(not m.get('pure') for m in c.methods[name]):
                impl.append(c.q + '::' + name)
        c = self.lookup_cls(owner)
        pure = any(m.get('pure') for m in c.methods.get(name, []))
        if pure:
            if len(impl) == 1:
                return impl[0]
            return q
        if not impl:
            return q
        if self.contract(q) is not None:
            return q
        raise ToolLimit('ambiguous virtual call ' + q)

    def emit(self, q, this, vals, n):
        self.log.append(Event('Emit', sig=q, obj=this, args=vals))
        h = self.xp.opt.get('on_emit')
        if h:
            h(self, q, this, vals)
        return None

    def bind(self, fn, argnodes, argvals=None, fr=None):
        """evaluate arguments in the caller frame -> values/locs for the parameters"""
        out = []
        for i, p in enumerate(fn.params):
            pt = p['type']
            qt_ = F._qt(pt)
            isref = qt_.rstrip().endswith('&')
            if argvals is not None:
                v = argvals[i] if i < len(argvals) else Py('default')
                if isinstance(v, Loc) and not isref:
                    v = self.load(v)
            else:
                a = argnodes[i] if i < len(argnodes) else None
                if a is None:
                    v = Py('default')
                elif isref and not qt_.startswith('const'):
                    v = self.ev(a)
                else:
                    v = self.ev(a)
                    if isinstance(v, Loc):
                        # by value, or const reference: nothing in this code base mutates the
                        # referent during the call except through tracked locations
                        v = v if (isref and self.xp.opt.get('const_ref_alias', True)) else self.load(v)
            if isinstance(v, Py) and v.kind == 'default':
                v = ('default', p)
            out.append(v)
        return out

    def param_default(self, fn, p, i):
        inits = [c for c in p.get('inner', []) if c.get('kind') not in ('FullComment',)]
        if inits:
            return inits[0]
        # look at the first declaration
        tu = fn.tu
        d = tu.decl.get(fn.node.get('previousDecl'))
        while d is not None:
            ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if i < len(ps) and ps[i].get('inner'):
                return ps[i]['inner'][0]
            d = tu.decl.get(d.get('previousDecl'))
        return None

    def call_fn(self, fn, this, argnodes=None, argvals=None, is_ctor=False, node=None):
        if len(self.frames) > 40:
            raise ToolLimit('inline depth (recursion without contract) in ' + fn.q)
        if sum(1 for f in self.frames if f.fn is fn) >= 2:
            raise ToolLimit('recursive function without contract: ' + fn.q)
        vals = self.bind(fn, argnodes or [], argvals)
        fr = Frame(fn, this, fn.tu, fn.cls)
        caller = self.frames
        nid = node.get('id') if node else None
        self.callstack.append((fn.q, nid))
        self.frames.append(fr)
        self.xp.inlined.add(fn.q)
        try:
            for i, (p, v) in enumerate(zip(fn.params, vals)):
                t = self.norm(parse_type(F._qt(p['type'])))
                fr.types[p['id']] = t
                fr.names[p['id']] = p.get('name', '')
                if isinstance(v, tuple) and v[0] == 'default':
                    dn = self.param_default(fn, v[1], i)
                    if dn is None:
                        raise ToolLimit('missing default argument in ' + fn.q)
                    v = self.rv(dn)
                if isinstance(v, Loc):
                    fr.env[p['id']] = v
                else:
                    fr.env[p['id']] = self.conv(v, t)
            if is_ctor:
                self.run_ctor_inits(fn, this)
            try:
                self.st(fn.body)
                ret = None
            except ReturnE as r:
                ret = r.v
            if isinstance(ret, Loc):
                if isinstance(ret, LVar) and ret.frame is fr:
                    ret = ret.read(self)
            return ret
        finally:
            self.frames.pop()
            self.callstack.pop()

    def run_ctor_inits(self, fn, this):
        fr = self.frames[-1]
        for it in fn.inits:
            ai = it.get('anyInit')
            inner = [c for c in self._inner(it) if c]
            if ai and ai.get('kind') == 'FieldDecl':
                t = self.norm(parse_type(F._qt(ai['type'])))
                fd = fr.tu.decl.get(ai['id'])
                if self.is_subobj(t):
                    sub = self.subref(this, fn.cls, ai['name'])
                    e = inner[0] if inner else None
                    while e is not None and e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                        e = e['inner'][0]
                    import qt
                    if t[1] in qt.QOBJECT_CLASSES:
                        qt.construct_object(self, t[1], sub, [self.rv(a) for a in self._inner(e)] if e and e['kind'] == 'CXXConstructExpr' else [], it)
                    continue
                e = inner[0] if inner else None
                if e is not None and e['kind'] == 'CXXDefaultInitExpr':
                    e2 = [c for c in (fd or {}).get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
                    v = self.rv(e2[-1]) if e2 else unpack(default_z(t), t)
                elif e is None:
                    v = unpack(default_z(t), t)
                else:
                    v = self.rv(e)
                if isinstance(this, Loc):
                    LSub(this, ai['name'], t).write(self, self.conv(v, t))
                else:
                    self.setf(this, fn.cls, ai['name'], t, self.conv(v, t))
            else:
                # base class initialiser
                e = inner[0] if inner else None
                while e is not None and e['kind'] in ('ExprWithCleanups',):
                    e = e['inner'][0]
                if e is None:
                    continue
                bt = self.ty(e)
                bc = self.lookup_cls(bt[1]) if bt[0] == 'cls' else None
                args = self._inner(e)
                if bc is not None:
                    bfn = self.find_ctor(bc, args)
                    self.call_fn(bfn, this, argnodes=args, is_ctor=True, node=it)
                else:
                    for a in args:
                        self.ev(a)

    def conv(self, v, t):
        """implicit representation conversions (constructor conversions evaluated by Qt model)"""
        if isinstance(v, CStr):
            if t == T_STR:
                return StringVal(_ustr(v.b))
            if t == T_BA:
                return BA(seq_of(v.b))
        if isinstance(v, Py) and v.kind == 'initlist' and is_list_type(t):
            s = Empty(zsort(t))
            for c in v.items:
                s = cat(s, Unit(pack(self.conv(c, t[2][0]), t[2][0])))
            return ListV(s, t[2][0])
        if t[0] == 'bool' and not isinstance(v, bool) and z3.is_expr(v) and v.sort() == IntSort():
            return v != 0
        if t[0] == 'bool' and isinstance(v, int):
            return bool(v)
        if t[0] == 'int' and isinstance(v, bool):
            return 1 if v else 0
        return v

    def call_closure(self, c, args, n):
        op = None
        for x in c.node['inner']:
            if x.get('kind') == 'CXXRecordDecl':
                for m in x.get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        op = m
        if op is None:
            raise ToolLimit('lambda without call operator')
        body = next((x for x in op.get('inner', []) if x.get('kind') == 'CompoundStmt'), None) or \
            next((x for x in c.node['inner'] if x.get('kind') == 'CompoundStmt'), None)
        params = [p for p in op.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        fr = Frame(None, c.this, c.tu, c.cls)
        fr.env = dict(c.env)
        for pp in list(c.env):
            fr.types.setdefault(pp, None)
        self.frames.append(fr)
        self.callstack.append(('lambda', n.get('id') if n else None))
        try:
            for i, p in enumerate(params):
                t = self.norm(parse_type(F._qt(p['type'])))
                fr.types[p['id']] = t
                fr.names[p['id']] = p.get('name', '')
                v = args[i]
                if isinstance(v, Loc) and not F._qt(p['type']).rstrip().endswith('&'):
                    v = self.load(v)
                fr.env[p['id']] = v
            try:
                self.st(body)
                return None
            except ReturnE as r:
                return self.load(r.v)
        finally:
            self.frames.pop()
            self.callstack.pop()

    def apply_contract(self, con, this, argnodes, n, q, argvals=None):
        vals = argvals if argvals is not None else [self.ev(a) for a in argnodes]
        # default arguments
        fn = None
        out = []
        for i, v in enumerate(vals):
            if isinstance(v, Py) and v.kind == 'default' and not getattr(con, 'keep_defaults', False):
                fn = fn or self.prog.find_fn(q, len(vals), self.frames[-1].tu)
                dn = self.param_default(fn, fn.params[i], i) if fn else None
                if dn is None:
                    raise ToolLimit('default argument of ' + q)
                v = self.rv(dn)
            out.append(v if con.wants_locs else self.load(v))
        self.xp.applied.add(q)
        return con.apply(self, this, out, n)

    # -------- constructors of value types, operators
    def e_CXXConstructExpr(self, n):
        import qt
        t = self.ty(n)
        args = self._inner(n)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'] if not (t[0] == 'cls' and self.lookup_cls(t[1])) else args
        if t[0] == 'cls':
            c = self.lookup_cls(t[1])
            if c is not None:
                if len(args) == 1:
                    at = self.ty(args[0])
                    if at == t:
                        v = self.rv(args[0])
                        return v
                if t[1] in STRUCTS:
                    fnq = c.q + '::' + c.q.split('::')[-1]
                    fn = self.prog.find_fn(fnq, len(args), self.frames[-1].tu)
                    if fn is not None and fn.body is not None and args:
                        tmp = LTemp(StructV(t[1], {f: unpack(default_z(ft), ft) for f, ft in STRUCTS[t[1]]}), t)
                        self.call_fn(fn, tmp, argnodes=args, is_ctor=True, node=n)
                        return tmp.v
                    f = {}
                    for fname, ft in STRUCTS[t[1]]:
                        fd = c.fields.get(fname)
                        init = [x for x in fd.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr') and x['kind'] != 'FullComment'] if fd else []
                        if init and fd.get('hasInClassInitializer'):
                            f[fname] = self.conv(self.rv(init[-1]), ft)
                        elif ft[0] in ('int', 'bool', 'ptr', 'float'):
                            f[fname] = self.havoc_value(ft, 'uninit_' + fname)
                        else:
                            f[fname] = unpack(default_z(ft), ft)
                    return StructV(t[1], f)
                if self.derives_qobject(c):
                    raise ToolLimit('QObject value construction of ' + t[1])
                if not args:
                    return Opaque(t, IntVal(0))
        vals = [self.rv(a) for a in args]
        return qt.construct(self, t, vals, n, [self.ty(a) for a in args])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, n):
        raise ToolLimit('inherited ctor')

    def e_CXXOperatorCallExpr(self, n):
        import qt
        cal = n['inner'][0]
        c = cal
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        rd = c['referencedDecl']
        name = rd['name']
        args = n['inner'][1:]
        t = F._qt(n['type'])
        if 'QDebug' in t or 'QDebug' in F._qt(rd.get('type', {})):
            self.xp.dropped.add('debug output')
            self.check_pure(n)
            return Py('debug')
        tu = self.frames[-1].tu
        if rd['id'] in tu.decl:
            q = tu.qual[rd['id']]
            fn = self.prog.find_fn(q, None, tu)
            if rd['kind'] == 'CXXMethodDecl':
                this = self.ev(args[0])
                return self.call_fn(fn, this, argnodes=args[1:], node=n)
            return self.call_fn(fn, None, argnodes=args, node=n)
        if name == 'operator()':
            f = self.rv(args[0])
            if isinstance(f, Closure):
                if len(args) == 1:
                    lit = self.qstring_literal(f.node)
                    if lit is not None:
                        return lit
                return self.call_closure(f, [self.ev(a) for a in args[1:]], n)
        if name == 'operator=':
            t0 = self.ty(args[0])
            c0 = self.lookup_cls(t0[1]) if t0[0] == 'cls' else None
            if c0 is not None and c0.q in STRUCTS:
                v = self.rv(args[1])
                l = self.ev(args[0])
                l.write(self, v)
                return l
        return qt.operator(self, name, args, n)

    def qstring_literal(self, n):
        """the QStringLiteral("...") macro: its value is the string"""
        key = ('qsl', n['id'])
        if key not in self.xp.__dict__.setdefault('qsl', {}):
            lits, seen = [], False
            todo = [n]
            while todo:
                x = todo.pop()
                if x.get('name') == 'qstring_literal':
                    seen = True
                if x.get('kind') == 'StringLiteral':
                    lits.append(x)
                todo.extend(c for c in x.get('inner', []) if isinstance(c, dict))
            v = self.e_StringLiteral(lits[0]) if seen and len(set(x['value'] for x in lits)) == 1 else None
            self.xp.qsl[key] = None if v is None else StringVal(v.b.decode('utf-8'))
        return self.xp.qsl[key]

    def e_CXXDeleteExpr(self, n):
        p = self.rv(n['inner'][0])
        self.log.append(Event('Delete', ref=p))
        h = self.xp.opt.get('on_delete')
        if h:
            h(self, p, n)
        return None

    def check_pure(self, n):
        """logging expressions are not executed; refuse if they could change state"""
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict):
                continue
            k = x.get('kind')
            if k in ('CompoundAssignOperator', 'CXXDeleteExpr', 'CXXNewExpr', 'LambdaExpr'):
                raise ToolLimit('side effect inside a logging statement')
            if k == 'BinaryOperator' and x.get('opcode') == '=':
                l = x['inner'][0]
                if not (l.get('kind') == 'DeclRefExpr' and l['referencedDecl'].get('name') == 'qt_category_enabled'):
                    raise ToolLimit('side effect inside a logging statement')
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                raise ToolLimit('side effect inside a logging statement')
            if k == 'CXXMemberCallExpr':
                cal = x['inner'][0]
                if cal.get('kind') == 'MemberExpr' and cal.get('name') in ('take', 'takeFirst', 'takeLast', 'remove', 'insert', 'append', 'clear',
                                                                          'generateMessageId', 'close', 'write', 'sendData', 'killConnection',
                                                                          'removeAll', 'deleteLater', 'start', 'stop'):
                    raise ToolLimit('side effect inside a logging statement')
            st.extend(x.get('inner', []))

    # ---- statements
    def st(self, n):
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in self._inner(n):
            self.st(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in self._inner(n):
            if d.get('kind') == 'VarDecl':
                self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        ts = F._qt(d['type'])
        t = self.norm(parse_type(ts))
        vid = d['id']
        fr.types[vid] = t
        fr.names[vid] = d.get('name', '')
        init = [c for c in self._inner(d) if c.get('kind') and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            fr.env[vid] = LField(IntVal(0), 'static', (fr.fn.q if fr.fn else '') + '::' + d.get('name', ''), t)
            if t[0] in ('int', 'bool') and init and 'const' in d['type'].get('qualType', ''):
                fr.env[vid] = self.rv(init[0])
            return
        if ts.rstrip().endswith('&') and init:
            v = self.ev(init[0])
            if not isinstance(v, Loc):
                v = LTemp(v, t)
            fr.env[vid] = v
            return
        if not init:
            if t[0] in ('int', 'bool', 'ptr', 'float'):
                fr.env[vid] = self.havoc_value(t, 'uninit_' + d.get('name', ''))
            elif is_struct(t):
                raise ToolLimit('struct without initialiser node')
            else:
                fr.env[vid] = self.havoc_value(t, 'uninit_' + d.get('name', ''))
            return
        if t[0] == 'cls' and self.is_subobj(t):
            # local QObject
            import qt
            r = self.alloc()
            e = init[0]
            while e['kind'] in ('ExprWithCleanups',):
                e = e['inner'][0]
            fr.types[vid] = ('ptr', t)
            c = self.lookup_cls(t[1])
            if c is None:
                qt.construct_object(self, t[1], r, [self.rv(a) for a in self._inner(e)], d)
            else:
                self.call_fn(self.find_ctor(c, self._inner(e)), r, argnodes=self._inner(e), is_ctor=True, node=d)
            fr.env[vid] = LTemp(r, t)
            return
        v = self.rv(init[0])
        v = self.conv(v, t)
        if v is None:
            v = Py('void')
        fr.env[vid] = v

    def s_ReturnStmt(self, n):
        i = self._inner(n)
        if not i:
            raise ReturnE(None)
        v = self.ev(i[0])
        fr = self.frames[-1]
        if isinstance(v, Loc):
            # functions returning references keep the location
            rt = F._qt(fr.fn.node['type']) if fr.fn is not None else ''
            if not re.match(r'.*&\s*\(', rt):
                v = self.load(v)
        if fr.fn is not None:
            rt = F._qt(fr.fn.node['type'])
            m = re.match(r'^(.*?)\s*\(', rt)
            if m and not isinstance(v, Loc):
                v = self.conv(v, self.norm(parse_type(m.group(1))))
        raise ReturnE(v)

    def s_BreakStmt(self, n):
        raise BreakE()

    def s_ContinueStmt(self, n):
        raise ContinueE()

    def s_IfStmt(self, n):
        inner = list(self._inner(n))
        if n.get('hasInit'):
            self.st(inner.pop(0))
        if n.get('hasVar'):
            self.st(inner.pop(0))
        c = inner[0]
        if self.branch(self.tobool(self.rv(c))):
            self.st(inner[1])
        elif n.get('hasElse'):
            self.st(inner[2])

    def s_SwitchStmt(self, n):
        inner = [c for c in self._inner(n)]
        cond = inner[-2]
        body = inner[-1]
        v = self.rv(cond)
        stmts = []   # (label exprs or 'default', stmt)
        for c in self._inner(body):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(c['inner'][0])
                    c = c['inner'][-1]
                else:
                    labels.append('default')
                    c = c['inner'][-1] if c.get('inner') else {'kind': 'NullStmt'}
            stmts.append((labels, c))
        start = None
        default = None
        for i, (labels, c) in enumerate(stmts):
            for l in labels:
                if l == 'default':
                    default = i
        for i, (labels, c) in enumerate(stmts):
            hit = False
            for l in labels:
                if l == 'default':
                    continue
                cv = self.rv(l)
                if self.branch(self.compare('==', v, cv)):
                    hit = True
                    break
            if hit:
                start = i
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for labels, c in stmts[start:]:
                self.st(c)
        except BreakE:
            pass

    # ---- loops
    def s_ForStmt(self, n):
        init, var, cond, inc, body = (self._inner(n) + [{}] * 5)[:5]
        # logging macro:  for (bool qt_category_enabled = ...; qt_category_enabled; qt_category_enabled = false) ...
        if init.get('kind') == 'DeclStmt' and init['inner'][0].get('name') == 'qt_category_enabled':
            self.xp.dropped.add('logging statements (qCDebug/qCWarning/...): operands not executed, checked to be free of assignments and mutating calls')
            self.check_pure(body)
            return
        if init.get('kind') == 'DeclStmt' and init['inner'][0].get('name', '').startswith('_container'):
            return self.qforeach(n, init, cond, inc, body)
        if init.get('kind'):
            self.st(init)
        self.loop(n, lambda: self.tobool(self.rv(cond)) if cond.get('kind') else True,
                  lambda: self.st(body), lambda: self.ev(inc) if inc.get('kind') else None)

    def s_WhileStmt(self, n):
        inner = self._inner(n)
        cond, body = inner[-2], inner[-1]
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.st(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = self._inner(n)
        if cond['kind'] == 'CXXBoolLiteralExpr' and self.e_CXXBoolLiteralExpr(cond) is False or \
                cond['kind'] == 'IntegerLiteral' and int(cond['value']) == 0 or \
                (cond['kind'] == 'ImplicitCastExpr' and cond['inner'][0].get('kind') == 'IntegerLiteral' and int(cond['inner'][0]['value']) == 0):
            try:
                self.st(body)
            except (BreakE, ContinueE):
                pass
            return
        try:
            self.st(body)
        except ContinueE:
            pass
        except BreakE:
            return
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.st(body), lambda: None)

    def qforeach(self, n, init, cond, inc, body):
        """Qt's foreach macro: iterates over a copy of the container"""
        call = init['inner'][0]['inner'][-1]
        while call['kind'] in ('ExprWithCleanups', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr'):
            call = call['inner'][0]
        # qMakeForeachContainer(expr)
        arg = call['inner'][-1]
        cont = self.rv(arg)
        # body: ForStmt  for (VAR = *_container_.i; ...)
        inner = body
        while inner['kind'] == 'CompoundStmt' and len(inner['inner']) == 1:
            inner = inner['inner'][0]
        if inner['kind'] != 'ForStmt':
            raise ToolLimit('foreach shape')
        iinit, _, icond, iinc, ibody = (self._inner(inner) + [{}] * 5)[:5]
        seq, et = self.elements(cont, self.ty(arg))
        self.seq_loop(n, seq, et, iinit, ibody)

    def elements(self, cont, t):
        """-> (sequence term, elem type) of values iterated over"""
        import qt
        if isinstance(cont, ListV):
            return cont.s, cont.et
        if isinstance(cont, HashV):
            return qt.hash_values(self, cont).s, cont.vt
        if isinstance(cont, BA):
            return cont.s, ('byte',)
        if isinstance(cont, Py) and cont.kind == 'initlist':
            raise ToolLimit('iteration over initializer list')
        raise ToolLimit('iteration over %r' % (t,))

    def s_CXXForRangeStmt(self, n):
        inner = self._inner(n)
        # [init, range decl, begin, end, cond, inc, loopvar decl, body]
        rng = next(c for c in inner if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range'))
        body = inner[-1]
        lv = inner[-2]
        e = rng['inner'][0]['inner'][-1]
        cv = self.ev(e)
        c = self.load(cv)
        vd = lv['inner'][0]
        isref = F._qt(vd['type']).rstrip().endswith('&') and not F._qt(vd['type']).startswith('const')
        if isref and isinstance(cv, Loc) and isinstance(c, (ListV, HashV, BA)):
            self.assigns_check(body, vd['id'])
        seq, et = self.elements(c, self.ty(e))
        self.seq_loop(n, seq, et, lv, body)

    def assigns_check(self, body, vid):
        pass

    def seq_loop(self, n, seq, et, vardecl, body):
        fr = self.frames[-1]
        pos = ('seqpos', n['id'])
        fr.types[pos] = ('int', 32, True)
        fr.env[pos] = 0
        fr.names[pos] = 'pos'
        if vardecl.get('kind') == 'DeclStmt':
            vd = vardecl['inner'][0]
            vid = vd['id']
            vt = self.norm(parse_type(F._qt(vd['type'])))
        else:
            vid, vt, vd = None, None, None

        def bind():
            i = iv(fr.env[pos])
            raw = seq[i]
            if et == ('byte',):
                import qt
                v = schar(self.byte(raw))
            else:
                v = unpack(raw, et)
                self.type_inv(v, et)
                self.elem_fact(seq, et, i, v)
            if vid is not None:
                fr.types[vid] = vt
                fr.names[vid] = vd.get('name', '')
                fr.env[vid] = v
            else:
                # foreach (existing, container)
                l = self.loc(vardecl['inner'][0])
                l.write(self, v)

        def body_():
            bind()
            self.st(body)

        def inc():
            fr.env[pos] = fr.env[pos] + 1

        self.loop(n, lambda: iv(fr.env[pos]) < Length(seq), body_, inc, seqinfo=(seq, et, pos))

    def byte(self, e):
        """a byte element: 0..255"""
        key = ('byte', e.get_id())
        if key not in self.ranged:
            self.ranged.add(key)
            self.xp.keep.append(e)
            self.assume(And(e >= 0, e <= 255))
        return e

    def elem_fact(self, seq, et, i, v):
        import qt
        qt.elem_fact(self, seq, et, i, v)
        for h in self.hooks:
            h(self, 'elem', seq, et, i, v)

    def loop(self, n, cond, body, inc, seqinfo=None):
        import loops
        return loops.run_loop(self, n, cond, body, inc, seqinfo)


def schar(b):
    if isinstance(b, int):
        return b - 256 if b >= 128 else b
    return If(b >= 128, b - 256, b)


def unschar(v):
    """if v is syntactically schar(b) return b"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_GE and c.arg(0).eq(b) and is_int_value(c.arg(1)) and c.arg(1).as_long() == 128:
            if a.eq(b - 256) or z3.simplify(a - b + 256).eq(IntVal(0)):
                return b
    return None


def nonneg(v):
    """not negative by its form (the value of a signed int is in range where it is used)"""
    if not z3.is_app(v):
        return False
    k = v.decl().kind()
    if k == z3.Z3_OP_SEQ_LENGTH:
        return True
    if z3.is_int_value(v):
        return v.as_long() >= 0
    return k == z3.Z3_OP_ADD and all(nonneg(c) for c in v.children())


def wrapc(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >= (1 << (bits - 1)):
        v -= 1 << bits
    return v


def _ustr(b):
    return b.decode('utf-8', 'replace')
