"""Which memory a function may write: inclusion-based points-to analysis, cloned per call path, over the IR of a program.
Objects are ('reg', name) for memory handed in (regions chosen by the caller), ('glob', name), ('loc', ctx, id) and ('heap', ctx, id)."""
from .interp import EngineError

WRITES = {'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'sprintf': (0,), 'snprintf': (0,),
          'gettimeofday': (0, 1), 'clock_gettime': (1,), 'strtok_r': (0, 2), 'fread': (0,), 'fgets': (0,), 'vsnprintf': (0,), 'bzero': (0,), 'stpcpy': (0,), 'qsort': (0,)}
SAFE = {'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fflush', 'perror', 'strlen', 'strnlen', 'strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp', 'strchr', 'strrchr',
        'strstr', 'memchr', 'strspn', 'strcspn', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isprint', 'isupper', 'islower', 'isxdigit', 'iscntrl', 'ispunct', 'isblank', 'tolower', 'toupper',
        'atoi', 'atol', 'atoll', 'atof', 'strtol', 'strtod', 'strtoll', 'strtoul', 'abs', 'labs', 'exit', 'abort', 'time', 'clock', '__assert_fail', 'sched_yield', 'pthread_self', 'usleep',
        'pthread_exit', 'sched_getcpu', 'pthread_setaffinity_np', 'bsearch', '__ctype_b_loc', '__ctype_tolower_loc', 'malloc_usable_size', 'fwrite', 'fclose', 'fopen', 'floor', 'ceil', 'fabs'}
RETARG = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'strchr': 0, 'strrchr': 0, 'strstr': 0, 'memchr': 0, 'fgets': 0}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'aligned_alloc', 'memalign', 'fopen'}
FREES = {'free', 'realloc'}
HIDDEN = {'strtok', 'rand', 'srand', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'tmpnam', 'drand48', 'srand48', 'lrand48', 'ecvt', 'fcvt', 'getpwnam',
          'strsignal', 'hsearch', 'hcreate', 'sleep_on', 'signal', 'chdir', 'l64a', 'ttyname', 'mallopt'}
STAR = (-(1 << 60), 1 << 60)


def meets(a, b):
    a = (a, a + 1) if isinstance(a, int) else a
    b = (b, b + 1) if isinstance(b, int) else b
    return a[0] < b[1] and b[0] < a[1]


class Effects:
    def __init__(self, prog, entry, args, child, fields=()):
        """args: per parameter a set of (object, offset); child(object, offset) -> set of (object, offset) a region holds there"""
        self.P, self.child = prog, child
        self.regions_with_fields = fields          # regions whose pointers are all described by child
        self.pts, self.mem = {}, {}
        self.changed = True
        self.writes = {}          # (object, kind) -> list of (chain, where)
        self.frees = {}
        self.hidden, self.unknown, self.unresolved, self.funcs = {}, {}, {}, set()
        self.sites = set()
        n = 0
        while self.changed:
            n += 1
            if n > 60:
                raise EngineError('points-to analysis does not stabilise')
            self.changed = False
            self.final = False
            self.run(entry, (), args, ())
        self.final = True
        self.run(entry, (), args, ())

    # ---- sets
    def add(self, key, s):
        if not s:
            return
        o = self.pts.setdefault(key, set())
        s = {x for x in s if x not in o and (x[0], STAR) not in o}
        if not s:
            return
        self.changed = True
        o |= s
        n = {}
        for x, off in o:
            n[x] = n.get(x, 0) + 1
        for x in [x for x in n if n[x] > 12 or (x, STAR) in o and n[x] > 1]:
            # a pointer that moves
            for y in [y for y in o if y[0] == x]:
                o.discard(y)
            o.add((x, STAR))

    def load(self, loc):
        o, off = loc
        out = set()
        for k, v in self.mem.get(o, {}).items():
            if meets(k, off):
                out |= v
        if o[0] == 'reg':
            out |= self.child(o, off)
        return out

    def store(self, loc, s):
        o, off = loc
        m = self.mem.setdefault(o, {}).setdefault(off, set())
        if not s <= m:
            m |= s
            self.changed = True

    def copy(self, d, s, size):
        """copies what the memory at s holds to the memory at d"""
        so, soff = s
        do, doff = d
        have = [(k, set(v)) for k, v in self.mem.get(so, {}).items()]
        if so[0] == 'reg':
            for off in self.child(so, None):
                have.append((off, self.child(so, off)))
            if so not in self.regions_with_fields:
                have.append((STAR, self.child(so, STAR)))
        for off, v in have:
            if not v:
                continue
            if isinstance(soff, int) and not meets(off, (soff, soff + size if size is not None else 1 << 60)):
                continue
            if not isinstance(soff, int) or not isinstance(doff, int):
                self.store((do, doff if not isinstance(doff, int) else (doff, doff + size) if size is not None else STAR), v)
            elif isinstance(off, int):
                self.store((do, doff + off - soff), v)
            elif off == STAR:
                self.store((do, (doff, doff + size) if size is not None else STAR), v)
            else:
                self.store((do, (doff + off[0] - soff, doff + off[1] - soff)), v)

    # ---- one function in one calling context
    def run(self, f, ctx, args, chain):
        self.funcs.add(f.name)
        for k, a in enumerate(args):
            self.add((ctx, 'a', k), a)
        ret = set()
        for b in f.blocks:
            for i in b.instrs:
                ret |= self.instr(f, ctx, i, chain) or set()
        return ret

    def val(self, f, ctx, o):
        k = o[0]
        if k == 'v':
            return self.pts.get((ctx, o[1]), set())
        if k == 'a':
            return self.pts.get((ctx, 'a', o[1]), set())
        if k == 'g':
            return {(('glob', o[1]), 0)}
        if k == 'f':
            return {(('fun', o[1]), 0)}
        if k == 'agg':
            out = set()
            for x in o[1]:
                out |= self.val(f, ctx, x)
            return out
        return set()

    def where(self, f, i):
        return '%s:%s:%s' % (i.file.split('/')[-1] if i.file else f.file, f.name, i.line)

    def note(self, tab, key, f, i, chain):
        if self.final:
            tab.setdefault(key, [])
            e = (' > '.join(chain + (f.name,)), self.where(f, i))
            if e not in tab[key]:
                tab[key].append(e)

    def wrote(self, locs, f, i, chain):
        if self.final:
            self.sites.add(self.where(f, i))
        if not locs:
            self.note(self.unresolved, 'store', f, i, chain)
        for o, off in locs:
            if o[0] in ('reg', 'glob'):
                self.note(self.writes, (o, off), f, i, chain)

    def moved(self, off, co, var, win):
        if not isinstance(off, int):
            return off                      # stays in the array it is in
        if not var:
            return off + co
        for co1, nv, sz in win:
            if nv == 0:
                return (off + co1, off + co1 + sz)
        return STAR

    def instr(self, f, ctx, i, chain):
        op = i.op
        V = lambda k: self.val(f, ctx, i.ops[k])
        me = (ctx, i.id)
        if op == 'alloca':
            self.add(me, {(('loc', ctx, i.id), 0)})
        elif op == 'load':
            if i.ty.kind == 'ptr' or i.ty.size >= 8:
                for l in V(0):
                    self.add(me, self.load(l))
        elif op == 'store':
            d, s = V(1), V(0)
            self.wrote(d, f, i, chain)
            if s:
                for l in d:
                    self.store(l, set(s))
        elif op == 'gep':
            co, var, win = i.x
            out = set()
            for o, off in V(0):
                out.add((o, self.moved(off, co, var, win)))
            self.add(me, out)
        elif op in ('phi',):
            for v in i.x.values():
                self.add(me, set(self.val(f, ctx, v)))
        elif op in ('select',):
            self.add(me, V(1) | V(2))
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'insertvalue', 'extractvalue', 'add', 'and', 'or', 'zext', 'sext'):
            out = set()
            for k in range(len(i.ops)):
                out |= V(k)
            if op in ('add', 'and', 'or') and out:
                out = {(o, STAR) for o, off in out}
            self.add(me, out)
        elif op == 'ret':
            return V(0) if i.ops else set()
        elif op in ('call', 'invoke'):
            self.call(f, ctx, i, chain)
        elif op in ('atomicrmw', 'cmpxchg'):
            self.wrote(V(0), f, i, chain)
        return set()

    def call(self, f, ctx, i, chain):
        me = (ctx, i.id)
        names = [i.x[1]] if i.x[0] == 'f' else [o[1] for o, off in self.val(f, ctx, i.x) if o[0] == 'fun']
        if not names:
            self.note(self.unknown, 'a function pointer', f, i, chain)
            return
        for n in names:
            if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.stack'):
                continue
            A = [self.val(f, ctx, o) if o[0] != 'meta' else set() for o in i.ops]
            g = self.P.resolve(f.module, n)
            if g is not None and not g.decl:
                if len(chain) > 12 or (chain + (f.name,)).count(n) > 1:
                    self.note(self.unknown, 'recursion through ' + n, f, i, chain)
                    continue
                self.add(me, self.run(g, ctx + ((f.name, i.id, n),), A, chain + (f.name,)))
                continue
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
                self.wrote(A[0], f, i, chain)
                size = i.ops[2][1] if i.ops[2][0] == 'c' and isinstance(i.ops[2][1], int) else None
                for d in list(A[0]):
                    for s in list(A[1]):
                        self.copy(d, s, size)
                self.add(me, set(A[0]))
                continue
            if n.startswith('llvm.memset'):
                self.wrote(A[0], f, i, chain)
                continue
            if n.startswith('llvm.'):
                continue
            if n in HIDDEN:
                self.note(self.hidden, n, f, i, chain)
                continue
            if n in FREES and A:
                for o, off in A[0]:
                    if o[0] in ('reg', 'glob'):
                        self.note(self.frees, o, f, i, chain)
            if n in ALLOC:
                self.add(me, {(('heap', ctx, i.id), 0)})
                if n == 'realloc':
                    self.add(me, set(A[0]))
                continue
            if n in FREES:
                continue
            if n in WRITES:
                for k in WRITES[n]:
                    if k < len(A) and not (n in ('gettimeofday',) and not A[k]):
                        self.wrote(A[k], f, i, chain)
            elif n not in SAFE and n not in RETARG:
                self.note(self.unknown, n, f, i, chain)
            if n in RETARG:
                self.add(me, {(o, STAR) for o, off in A[RETARG[n]]})
