"""Proof suites. A suite name is CLASS/PART (PART: methods, dim, mem, iter, ser); a task key is (suite name,) + task."""
from . import front
from .tasks import seq_tasks, run_seq
from .specs.seq import SeqSpec, ListAdaptor, methods_of
from .specs.adaptors import ImmSeq, DequeAdaptor
from .specs.util import util_tasks, run_util
from .specs import intvec, lmv
from .specs.sorted import SortedSet
from .specs.pairs import PairAdaptor, ImmPairAdaptor
from .specs.sortedmap import SortedMap
from .specs.intvec import IntAdaptor
from .specs.lmv import LMVAdaptor
from .specs.empty import EmptySuite
from .specs.funcs import FuncSuite
from .specs.order import OrderSuite
from .specs.handlers import HandlerSpec, IterSpec, handlers_of, run_handler

COMMON = ('teds_util', 'teds', 'teds_exceptions', 'tvc_aux')
SEQ = {'Vector': ListAdaptor, 'ImmutableSequence': ImmSeq, 'Deque': DequeAdaptor, 'IntVector': IntAdaptor, 'LowMemoryVector': LMVAdaptor, 'StrictSortedVectorSet': SortedSet, 'MutableIterable': PairAdaptor, 'ImmutableIterable': ImmPairAdaptor, 'StrictSortedVectorMap': SortedMap}
FNS = {'IntVector': intvec, 'LowMemoryVector': lmv}
OTHER = {c: EmptySuite for c in ('EmptySequence', 'EmptySet', 'EmptyMap')}
OTHER['teds'] = FuncSuite
OTHER['order'] = OrderSuite
# proved only in the thorough tier (time)
SLOW = {('Vector/methods', '__construct', 'null', 1, 'trav'), ('ImmutableSequence/methods', '__construct', 'null', 1, 'trav'),
        ('Vector/iter', 'iters', 'insert', None),
        ('Deque/methods', '__construct', 'null', 1, 'trav'), ('Deque/methods', 'insert', 'heap', None, None), ('Deque/methods', 'offsetUnset', 'heap', 1, None),
        ('Deque/iter', 'iters', 'pushFront', None), ('Deque/iter', 'iters', 'unshift', None), ('Deque/iter', 'iters', 'insert', None),
        ('Deque/iter', 'iters', 'offsetUnset', 1)}
SLOW |= {('Deque/mem', 'clone_obj', 'heap', None)}
SLOW |= {('IntVector/methods', 'insert', c, 3, None) for c in ('i8', 'i16')} | {('IntVector/iter', 'iters', 'insert', None)} | {('IntVector/%s' % p, m, c, 1, x) for p in ('methods', 'ser') for m, c in (('__construct', 'null'), ('__set_state', 'static')) for x in ('packed', 'hash')}
SLOW |= {('LowMemoryVector/methods', 'insert', c, 3, None) for c in LMVAdaptor.cases} | {('LowMemoryVector/methods', 'insert', c, 2, None) for c in ('i8', 'i16', 'i32')}
SLOW |= {('LowMemoryVector/methods', 'pushFront', c, 2, None) for c in ('i8', 'i16', 'i32')} | {('LowMemoryVector/iter', 'iters', 'insert', None), ('LowMemoryVector/methods', 'insert', 'zv', None, None)}
SLOW |= {('LowMemoryVector/%s' % p, m, c, 1, x) for p in ('methods', 'ser') for m, c in (('__construct', 'null'), ('__set_state', 'static')) for x in ('packed', 'hash')}
SLOW |= {('StrictSortedVectorSet/iter', 'iters', 'add', 1)}
SLOW |= {('order/all', 'strict_hash_array', x, None) for x in ('packed', 'hash')} | {('teds/funcs', 'any', 2, x) for x in ('packed', 'hash')}
SLOW |= {('teds/funcs', f, a, su) for f, a in (('all', 2), ('none', 2), ('find', 2), ('find', 3), ('fold', 3)) for su in ('packed', 'hash')}
SLOW |= {('%s/methods' % c, '__construct', 'null', 1, x) for c in ('MutableIterable', 'ImmutableIterable') for x in ('trav', 'hash')}
SLOW |= {('StrictSortedVectorMap/methods', 'offsetSet', 'heap', 2, None), ('StrictSortedVectorMap/dim', 'write_dimension', 'heap', None), ('StrictSortedVectorMap/iter', 'iters', 'offsetSet', 2)}
SER = ('__serialize', '__unserialize', '__set_state', 'jsonSerialize')
PARTS = {'dim': ('count_elements', 'get_properties_for', 'read_dimension', 'write_dimension', 'has_dimension', 'unset_dimension'),
         'mem': ('free_obj', 'clone_obj', 'get_gc', 'create_object'),
         'iter': ('get_iterator',)}
TRUSTED = [
    'clang -O1 front end without optimisation passes plus sroa/early-cse/instsimplify/simplifycfg: the IR has the meaning of the C source',
    'tvc: the symbolic executor, its loop-invariant checker and the encoding of the heap',
    'z3 (and cvc5 where z3 gives up): an unsat answer is right',
    'no loop goes round 2^62 times',
    'allocation of at most 2^47 bytes succeeds; the engine aborts otherwise',
]


class SeqSuite:
    def __init__(self, ad, mods, prog):
        self.ad, self.mods, self.prog = ad, mods, prog
        self.sp = (ad.spec or SeqSpec)(ad)
        self.ms = methods_of(mods[ad.module], ad.cls)
        self.hs = handlers_of(mods[ad.module], ad.cls)
        self.H = (getattr(ad, 'hspec', None) or HandlerSpec)(ad, self.sp)
        self.I = IterSpec(ad, self.sp) if ad.has_iters else None

    def tasks(self, part):
        # aliases of one C function are one task
        first = {}
        for m in sorted(self.ms):
            first.setdefault(self.ms[m], m)
        return [t for t in self.all_tasks(part) if t[0] not in self.ms or self.ms[t[0]] not in first or first[self.ms[t[0]]] == t[0] or first[self.ms[t[0]]] not in self.sp.table()]

    def all_tasks(self, part):
        if part in ('methods', 'ser'):
            return (util_tasks(self.mods[self.ad.module]) if self.ad.util else []) + (FNS[self.ad.cls].fn_tasks(self.mods[self.ad.module], self.ad) if self.ad.cls in FNS else []) + [t for t in seq_tasks(self.sp) if t[0] in self.ms and (part == 'methods' or t[0] in SER)]
        out = [t for t in self.H.tasks(self.hs) if t[0] in PARTS[part]]
        if part == 'iter':
            out += self.H.it_tasks()
            if self.I:
                out += self.I.tasks(self.ms)
        return out

    def run(self, part, t, budget, unroll):
        if t[0] == 'util':
            return run_util(self.prog, self.mods[self.ad.module], t, budget, unroll)
        if t[0] == 'fn':
            return FNS[self.ad.cls].run_fn(self.prog, self.mods, self.ad, t, budget, unroll)
        if part in ('methods', 'ser'):
            return run_seq(self.prog, self.mods, self.sp, self.ms, t, budget=budget, unroll=unroll, timeout=15000)
        if t[0] == 'iters':
            return self.I.run(self.prog, self.mods, self.ms, t, budget, unroll)
        return run_handler(self.prog, self.mods, self.H, self.hs, t, budget, unroll)


def load(files, specs):
    ctx = {'suites': {}}
    want = set(COMMON)
    ads = {}
    for s in specs:
        c = s.split('/')[0]
        if c in OTHER:
            want |= {OTHER[c].module} | set(OTHER[c].also)
        if c in SEQ:
            ads[c] = SEQ[c]()
            want |= {ads[c].module} | set(ads[c].also)
    mods = front.load({k: v for k, v in files.items() if k in want})
    prog = front.program(mods)
    for c, ad in ads.items():
        ctx['suites'][c] = SeqSuite(ad, mods, prog)
    for c in {s.split('/')[0] for s in specs} & set(OTHER):
        ctx['suites'][c] = OTHER[c](c, mods, prog)
    return ctx


def tasks(ctx, specs, thorough):
    out = []
    for s in specs:
        c, part = s.split('/')
        if c in ctx['suites']:
            out += [(s,) + t for t in ctx['suites'][c].tasks(part)]
    if not thorough:
        out = [t for t in out if t not in SLOW]
    # slow cases first
    w = {'insert': 9, 'map': 8, 'setSize': 7, '__unserialize': 6, '__set_state': 6, '__construct': 6, 'offsetUnset': 5, 'iters': 4, 'write_dimension': 4}
    out.sort(key=lambda t: (-w.get(t[1], 0) - (0.5 if t[2] == 'heap' else 0)))
    return out


def run(ctx, key, budget, unroll):
    c, part = key[0].split('/')
    return ctx['suites'][c].run(part, key[1:], budget, unroll)
