"""The runs of every property: harness, parameters (= bounds), what must be reachable. check.py executes them."""
COMMON_ASSUMPTIONS = [
    'LLVM 18 -O1 lowering of the sources, the executor (engine/, its expression rewriting fuzzed by engine/test/fuzz_expr.cpp) and z3 4.8.12 are trusted; every counterexample and a sample of the explored paths are replayed on a native ASan/UBSan build of the same sources',
    'std streams, red-black tree balancing, hash and list internals of libstdc++ are replaced by equivalents in stubs/std and runtime/runtime.cpp; printed text is discarded; clocks return increasing constants',
    'memory allocation never fails; single thread; the observer library (SATSentinel, absent here) is a stub that never observes',
    'bounds: the parameters of each run below; nothing is claimed outside them']
U = 'src/utils/'
SOURCES = {'bitset': [U + 'bitset.cpp'], 'heap': [U + 'heap.cpp'], 'avl': [U + 'partition.cpp'], 'luby': [], 'types': [], 'deps': ['src/proof/dependency_tracker.cpp'],
           'options': ['src/solver/SAT-options.cpp', U + 'options.cpp', U + 'printer.cpp'], 'printer': ['src/solver/SAT-options.cpp', U + 'options.cpp', U + 'printer.cpp']}
PROPS = {}
def prop(pid, *runs, assume=()): PROPS[pid] = {'runs': list(runs), 'assumptions': list(assume)}
def R(name, harness, bounds, reach='', tiers=None, thorough=None, **kw):
    opt = {k: kw.pop(k) for k in ('split', 'serial', 'defs', 'samples', 'steps') if k in kw}
    r = dict(name=name, harness=harness, bounds=bounds, reach=[x for x in reach.split(',') if x], params=kw, thorough=thorough or {}, **opt)
    if tiers: r['tiers'] = tiers
    return r
T = ('thorough',)
REL = ['NDEBUG']
# ---------------------------------------------------------------------------------------------- solver
def S(name, bounds, reach='sat,unsat', **kw):
    kw.setdefault('check', 7); kw.setdefault('mode', 99); kw.setdefault('steps', 400000000)
    return R(name, 'solve', bounds, reach, **kw)
def small(name, **kw): return S(name, 'every clause set of nc clauses of minlen..len literals over nv variables (duplicate and complementary literals included; ord=1: literals of a clause in ascending order)', fam=0, **kw)
def lists(name, **kw): return S(name, '`lists` fixed lists of nfix+bits random clauses of len literals over nv variables, every subset of the last `bits` clauses', fam=1, **kw)
def flips(name, **kw): return S(name, '`lists` fixed lists of nfix+bits random clauses, every choice of sign of one literal of the last `bits` clauses', fam=2, **kw)
def parity(name, **kw): return S(name, 'parity constraints over a ring of nv variables, every choice of `bits` right-hand sides, plus nc arbitrary clauses', fam=3, **kw)
def php(name, **kw): return S(name, 'pigeonhole clauses (`list` holes), every subset of the last `bits` clauses', fam=4, **kw)
prop('P01',
  small('sets32', nv=3, nc=3, len=2, minlen=2, ord=1, mode=95, thorough=dict(mode=99, ord=0, time=1500)),
  lists('mid', nv=12, nfix=42, bits=3, lists=20, len=3, thorough=dict(lists=100)),
  lists('wide', nv=30, nfix=119, bits=0, lists=40, len=3, reach='sat', thorough=dict(lists=300)),
  lists('wide45', nv=45, nfix=181, bits=0, lists=30, len=3, reach='sat', thorough=dict(lists=200)),
  lists('mixed', nv=9, nfix=10, bits=6, lists=3, len=2, mode=98, reach='sat'),
  flips('flips', nv=10, nfix=34, bits=6, lists=4, len=3, mode=98, thorough=dict(mode=99, bits=8)),
  parity('parity', nv=6, bits=3, nc=1, len=2, mode=95),
  lists('release', nv=24, nfix=98, bits=1, lists=20, len=3, defs=REL, thorough=dict(lists=200)),
  small('sets33', tiers=T, nv=3, nc=2, len=3, minlen=0, mode=98, time=1500))
prop('P02',
  small('sets24', nv=2, nc=4, len=2, minlen=2, ord=1, mode=95, thorough=dict(mode=99, ord=0, minlen=1, time=1500)),
  lists('mid', nv=12, nfix=58, bits=3, lists=16, len=3, thorough=dict(lists=100)),
  lists('wide', nv=26, nfix=123, bits=0, lists=40, len=3, reach='unsat', thorough=dict(lists=300)),
  flips('flips', nv=8, nfix=34, bits=6, lists=4, len=3, mode=98, thorough=dict(mode=99, bits=8)),
  parity('parity', nv=6, bits=4, nc=2, len=1, mode=95),
  php('php', list=3, bits=5, thorough=dict(bits=9)), php('php4', list=4, bits=2, mode=98, thorough=dict(bits=6)),
  lists('release', nv=22, nfix=104, bits=0, lists=40, len=3, reach='unsat', defs=REL, thorough=dict(lists=300)),
  small('sets33', tiers=T, nv=3, nc=3, len=3, minlen=1, mode=95, time=1500))
prop('P03',
  small('degenerate', nv=2, nc=2, len=2, minlen=0, leak=1),
  small('units', nv=3, nc=4, len=1, minlen=1, mode=98, leak=1),
  small('growing', mode=98, nv=3, nc=2, len=2, minlen=1, slack=1, leak=1),
  small('reuse', mode=0, nv=3, nc=2, len=3, minlen=2, slack=1, leak=1, ord=1),
  lists('large', nv=50, nfix=214, bits=0, lists=24, len=3, reach='', thorough=dict(lists=200)),
  lists('binary', nv=14, nfix=26, bits=5, lists=3, len=2, mode=98, reach=''),
  php('php', list=5, bits=1, mode=98),
  lists('release', nv=50, nfix=214, bits=0, lists=24, len=3, reach='', defs=REL, thorough=dict(lists=200)))
prop('P05',
  lists('mid', nv=12, nfix=60, bits=2, lists=8, len=3, mode=98, perf=1, reach='', thorough=dict(lists=40, mode=99)),
  lists('large', nv=40, nfix=170, bits=0, lists=16, len=3, mode=95, perf=1, reach='', thorough=dict(lists=80, mode=99)),
  php('php', list=4, bits=1, mode=95, perf=1, thorough=dict(mode=99)),
  small('sets', nv=3, nc=2, len=2, minlen=1, mode=95, perf=1),
  lists('release', nv=40, nfix=170, bits=0, lists=16, len=3, mode=95, perf=1, reach='', defs=REL, thorough=dict(lists=80, mode=99)))
def I(name, bounds, reach='', **kw):
    kw.setdefault('mode', 99); kw.setdefault('steps', 400000000)
    return R(name, 'incr', bounds, reach, **kw)
prop('P06',
  I('rounds', '`lists` lists of random clauses, then `rounds` rounds: solve, add any subset of nadd random clauses of alen literals', 'unsat,sat again,sat at the end', fam=1, nv=8, nfix=14, bits=0, len=3, lists=16, rounds=3, nadd=2, alen=2, thorough=dict(lists=60, rounds=4)),
  I('wide', 'as rounds, more variables, longer clauses', 'unsat,sat again,sat at the end', fam=1, nv=12, nfix=40, bits=0, len=3, lists=14, rounds=3, nadd=2, alen=2, thorough=dict(lists=40, rounds=4)),
  I('units', 'as rounds, adding units', 'unsat,sat again,sat at the end', fam=1, nv=8, nfix=10, bits=0, len=3, lists=20, rounds=3, nadd=2, alen=1, thorough=dict(lists=40, rounds=4)),
  I('against', 'as rounds, clauses made false by the current assignment are added', 'unsat,sat again,sat at the end', against=1, fam=1, nv=9, nfix=14, bits=0, len=3, lists=10, rounds=4, nadd=2, alen=2, thorough=dict(lists=20, rounds=5)),
  I('symbolic', 'random clauses, solve, add one arbitrary clause of alen literals, solve', 'unsat,sat again', fam=1, nv=3, nfix=5, bits=0, len=2, asym=1, rounds=1, nadd=1, alen=2),
  I('models', 'enumeration of all models of `lists` lists of random clauses, any subset of the last ones', 'models', part=1, fam=1, nv=5, nfix=6, bits=3, len=3, lists=2))
def D(name, bounds, reach='accepted,refuted', **kw): return R(name, 'dimacs', bounds, reach, **kw)
prop('P15',
  D('pieces', 'files of nops pieces out of 17 (clause ends, line breaks, blanks, comments, headers, weights, junk) or literals of nv variables', 'accepted,refuted,malformed', part=0, nops=3),
  D('text', 'every text of nops characters of the alphabet', 'accepted,refuted,malformed', part=1, nops=4, alphabet=9),
  D('long', 'clauses of nops literals with any repetitions, in any line layout', part=2, nops=6, rows=1, nv=1),
  D('two', 'two files with a solve in between', part=3, nops=2))
def K(name, bounds, reach='', **kw): return R(name, 'decoder', bounds, reach, **kw)
prop('P18',
  K('pieces', 'files of nops pieces (start and end of streams, any letter, two runs, damage), both formats', 'short,long,refused', part=0, nops=6, thorough=dict(nops=8)),
  K('buffers', 'files around the sizes of the buffers, nops pieces at the end', 'short,refused', part=0, **{'from': 250}, lead=12, nops=3, unit=1, unit_bz=1, menu=4),
  K('runs', 'content around the sizes of the buffers', 'long,refused', part=0, lead=1, nops=6, menu=4, unit=16, unit_bz=256),
  K('dimacs', 'three clauses in up to three streams, cut off anywhere', 'read,refused', part=1),
  assume=['liblzma and libbz2 are stood for by decoders of a small format that keep the contracts of lzma_code and BZ2_bzRead'])
def V(name, bounds, reach='', **kw): kw.setdefault('mode', 99); return R(name, 'drive', bounds, reach, **kw)
prop('P04',
  V('any', 'every clause set of nc clauses of up to len literals with any repetitions, each entered either way, judged by every assignment', 'pushed,added,accepted,refuted', part=2, mode=0, fam=0, nv=2, nc=2, len=3, minlen=0),
  V('modes', 'as any, one clause, every strategy', 'pushed,added,accepted,refuted', part=2, fam=0, nv=2, nc=1, len=3, minlen=0, create=1, start=1),
  V('random', 'random clauses, each entered either way, judged by every assignment', 'pushed,added,accepted,refuted', part=2, mode=95, fam=1, nv=5, nfix=4, bits=1, len=3, lists=2, create=1))
prop('P07',
  V('search', 'random clauses, every sequence of nops own or solver decisions with propagation, then solving', 'propagated,implied,decided,automatic,sat', part=0, fam=1, nv=6, nfix=14, bits=0, len=3, lists=2, nops=3, thorough=dict(lists=8, nops=4)),
  V('dense', 'as search, more clauses', 'propagated,implied,root,sat,unsat', part=0, fam=1, nv=5, nfix=24, bits=1, len=3, lists=4, nops=2, thorough=dict(lists=12, nops=3)),
  V('binary', 'as search, binary clauses', 'propagated,implied,root,sat', part=0, fam=1, nv=5, nfix=6, bits=2, len=2, lists=2, nops=3, thorough=dict(lists=8)),
  V('watched', 'random clauses, any subset of the last ones; the solver searches on its own but for one arbitrary decision at one of its first steps', 'propagated,implied,decided,sat', part=3, mode=96, fam=1, nv=16, nfix=56, bits=0, len=3, lists=4, steps_own=2, thorough=dict(lists=12, steps_own=4)),
  V('adding', 'as search, with clauses added in between', 'propagated,implied,decided,added,sat', part=0, mode=95, fam=1, nv=5, nfix=6, bits=0, len=3, lists=1, nops=3, nadd=2, thorough=dict(lists=4, mode=99)))
def U9(name, bounds, reach='', **kw): kw.setdefault('mode', 96); kw.setdefault('steps', 400000000); return R(name, 'assume', bounds, reach, **kw)
hist9 = 'every history of nops operations (assume any literal, solve, forget one assumption, forget all), then solving with and without the assumptions; '
prop('P09',
  U9('history', hist9 + 'random clauses', 'assumed,rejected,forgotten,all forgotten,sat,sat under assumptions,unsat under assumptions', fam=1, nv=4, nfix=8, bits=0, len=3, lists=1, nops=3, thorough=dict(lists=6, nops=4)),
  U9('conflicts', '`pre` arbitrary assumptions, then nops operations as in history; more clauses', 'assumed,rejected,forgotten,sat under assumptions,unsat under assumptions,proper core', fam=1, nv=6, nfix=20, bits=0, len=3, lists=1, pre=2, nops=1, ops=7),
  U9('solved', 'an arbitrary assumption before, between and after two calls; more clauses', 'assumed,rejected,sat under assumptions,unsat under assumptions,proper core', fam=1, nv=6, nfix=21, bits=0, len=3, lists=1, pre=1, script=1212, thorough=dict(lists=8, nv=7)),
  U9('raised', 'a call, then three arbitrary assumptions', 'assumed,rejected,sat under assumptions,unsat under assumptions,proper core', fam=1, nv=6, nfix=16, bits=0, len=3, lists=1, script=1112, thorough=dict(lists=8, nv=7)),
  U9('exchanged', 'two arbitrary assumptions, a call, one of them forgotten, a third one', 'assumed,rejected,forgotten,sat under assumptions', fam=1, nv=5, nfix=14, bits=0, len=3, lists=1, pre=2, script=132, thorough=dict(lists=8, nv=7)),
  U9('adding', 'as history, with clauses added', 'assumed,forgotten,added', fam=1, nv=4, nfix=7, bits=0, len=3, lists=1, nops=3, nadd=2, ops=31),
  U9('contradictory', 'one arbitrary assumption, then any sequence of adding arbitrary units and forgetting all', 'assumed,all forgotten,added', fam=1, nv=3, nfix=1, bits=0, len=2, lists=1, pre=1, nops=3, nadd=1, anyunit=1, ops=24, thorough=dict(nops=4, lists=3)))
def U10(name, bounds, reach='', **kw): kw.setdefault('mode', 96); kw.setdefault('steps', 400000000); return R(name, 'assume', bounds, reach, ccore=1, **kw)
prop('P10',
  U10('history', hist9 + 'random clauses', 'assumed,sat,unsat under assumptions,clause core under assumptions,proper clause core', fam=1, nv=4, nfix=8, bits=0, len=3, lists=1, nops=3, thorough=dict(lists=6, nops=4)),
  U10('conflicts', '`pre` arbitrary assumptions, then nops operations; more clauses', 'assumed,unsat under assumptions,clause core under assumptions,proper clause core', fam=1, nv=6, nfix=20, bits=0, len=3, lists=1, pre=2, nops=1, ops=7),
  U10('dense', 'random clauses, any subset of the last ones, one arbitrary assumption; also with clause deletion or proofs', 'unsat,clause core', fam=1, nv=10, nfix=50, bits=1, len=3, lists=3, pre=1, nops=0, perf=1, thorough=dict(lists=20)),
  U10('adding', 'one arbitrary assumption, then any sequence of adding random clauses, solving and forgetting', 'clause core,proper clause core,added', fam=1, nv=4, nfix=8, bits=0, len=2, lists=2, pre=1, nops=4, nadd=2, ops=26, thorough=dict(lists=8)))
prop('P11',
  V('limits', 'random clauses, `rounds` calls with any limits below `limits`, then solving without limit', 'stopped,within the limit,sat,unsat', part=1, fam=1, nv=9, nfix=54, bits=0, len=3, lists=16, rounds=3, limits=4, thorough=dict(lists=80)),
  V('longer', 'as limits, lists that need more conflicts', 'stopped,sat,unsat', part=1, fam=1, nv=14, nfix=62, bits=0, len=3, lists=30, rounds=2, limits=3, thorough=dict(lists=100, limits=6)),
  V('adding', 'as limits, with clauses added in between', 'stopped,added,sat', part=1, fam=1, nv=10, nfix=38, bits=0, len=3, lists=24, rounds=3, limits=2, nadd=2, thorough=dict(lists=80)),
  V('option', 'the limit given as option, solving repeated until an answer', 'stopped,sat,unsat', part=1, opt=1, fam=1, nv=12, nfix=52, bits=0, len=3, lists=16, rounds=2, thorough=dict(lists=60)))
# ---------------------------------------------------------------------------------------------- proof / utilities
def X(name, bounds, reach='', **kw): return R(name, 'proof', bounds, reach, **kw)
prop('P12',
  X('dense', 'random clauses, any subset of the last ones; every strategy', 'unsat', part=0, mode=99, fam=1, nv=8, nfix=42, bits=1, len=3, lists=12, steps=400000000, thorough=dict(lists=60)),
  X('short', 'as dense, clauses of two literals and of one', 'unsat,sat', part=0, mode=99, fam=1, nv=5, nfix=10, bits=3, len=2, lists=4, thorough=dict(lists=20)),
  X('later', 'as dense, with later additions', 'unsat,refuted later,sat', part=0, mode=99, fam=1, nv=8, nfix=22, bits=0, len=3, lists=16, rounds=3, nadd=2, alen=2, thorough=dict(lists=40, rounds=4)),
  X('units', 'as later, with unit clauses added', 'unsat,refuted later', part=0, mode=99, fam=1, nv=8, nfix=20, bits=0, len=3, lists=16, rounds=3, nadd=2, alen=1, thorough=dict(lists=40, rounds=4)),
  X('parity', 'parity constraints, every right-hand side', 'unsat', part=0, mode=99, fam=3, nv=7, bits=4, nc=0, thorough=dict(bits=7)),
  X('roots', 'larger lists', 'unsat', part=0, text=0, mode=98, fam=1, nv=20, nfix=95, bits=0, len=3, lists=60, steps=400000000, thorough=dict(lists=300, mode=99)),
  X('large', 'larger lists', 'unsat', part=0, text=0, fam=1, nv=30, nfix=140, bits=0, len=3, lists=12, steps=400000000, thorough=dict(lists=80)),
  X('options', 'as dense under search options', 'unsat', part=0, perf=1, mode=95, fam=1, nv=9, nfix=50, bits=0, len=3, lists=16, thorough=dict(lists=80)),
  X('symbolic', 'every clause set of nc clauses of up to len literals', 'unsat,sat', part=0, mode=95, fam=0, nv=2, nc=3, len=2, minlen=1, ord=1))
prop('P13',
  X('chains', 'nin arbitrary clauses, nder clauses claimed with arbitrary chains of up to links links', 'accepted,rejected', part=1, nv=2, nin=2, nder=2, links=2, len=1, defs=REL),
  X('tautologies', 'as chains, longer clauses, intermediate tautologies', 'rejected', part=1, nv=2, nin=2, nder=1, links=3, len=2, taut=1, defs=REL),
  X('valid', 'as chains, valid chains only, debug build', 'accepted', part=1, nv=2, nin=2, nder=2, links=2, len=2, valid=1, thorough=dict(links=3)),
  X('root', 'a clause with any literals over nv variables, any of them implied at root level by any reasons', 'removed,all removed,some left', part=2, nv=4))
prop('P14', R('histories', 'deps', 'every history of nops operations over 4 clauses after 2 inputs', 'learned,linked,tracked,cancelled,committed,deleted', nops=4, thorough=dict(nops=5, time=1500)),
  R('sparse', 'deps', 'as histories, clause numbers 70 apart', 'learned,linked,tracked,committed', nops=3, stride=70, n0=3),
  R('reuse', 'deps', '2 inputs, 1 derived clause of any premises, then nops derivations, uses, commits and deletions (numbers are reused)', 'learned,tracked,committed,deleted', n0=2, n1=1, ids=4, ops=0b1101010, fused=1, nops=5, thorough=dict(n0=3, ids=5)))
def B(name, bounds, reach, **kw): return R(name, 'bitset', bounds, reach, **kw)
hb = 'histories of nops set/clear/toggle/read/compare operations at arbitrary positions of `blocks` 64-bit regions of a set of `words` words'
prop('P16', B('history', hb, 'several members,no member,equal,different', split=True, part=0, nops=2, eqops=1), B('three', hb, 'several members', part=0, nops=3, eqops=0, words=2),
  B('compare', hb, 'equal,different', part=0, nops=2, eqops=2, words=2), B('grow', hb, 'several members', split=True, part=0, nops=1, eqops=1, grow=1, after=1, blocks=3),
  B('four', hb, 'several members', part=0, nops=4, eqops=0, words=2, blocks=1), B('blocks5', hb, 'several members,no member,equal,different', part=0, nops=2, eqops=1, words=1, blocks=5), B('blocks9', hb, 'no member,several members', part=0, nops=2, eqops=0, words=1, blocks=9))
ab = 'two sets built by nops and nops2 insertions, every binary operation'
prop('P17', B('two', ab, 'both empty,proper,equal nonempty', part=1, nops=2, nops2=1, words=2), B('words3', ab, 'proper', part=1, nops=2, nops2=1, words=3, blocks=1),
  B('words7', ab, 'proper', part=1, nops=1, nops2=1, words=7, blocks=3), B('blocks6', ab, 'proper,both empty', part=1, nops=1, nops2=1, words=1, blocks=6), B('twotwo', ab, 'overlapping,proper,equal nonempty', part=1, nops=2, nops2=2, words=1, blocks=1, thorough=dict(words=2, time=1500)))
def H(name, bounds, reach='drained', **kw): return R(name, 'heap', bounds, reach, **kw)
prop('P19', H('r12', '12 members; one removal, update, increase or pop; five activities arbitrary in 16 ranks', 'drained,remove,update,increase,pop', acts=3, keys=12, n0=12, nops=1, ops=0b011110, mask=0b100000101110),
  H('r4', '3 members of 4, 2 operations, all weak orders', acts=3, keys=4, n0=3, nops=2, ops=63), H('r4d', '4 members inserted in descending order, 2 operations', acts=3, keys=4, n0=4, nops=2, ops=63, desc=1),
  H('r00', '4 operations from the empty queue', acts=3, keys=3, n0=0, nops=4, ops=63), H('raw', 'any non-negative finite activities', acts=0, keys=4, n0=3, nops=1, ops=63), H('raw1', 'any finite activities', acts=1, keys=3, n0=2, nops=1, ops=63),
  H('scale', 'scaling of all activities', 'drained,scaled', acts=2, keys=4, n0=3, nops=2, ops=127), H('r6', '6 members, one operation', tiers=T, acts=3, keys=7, n0=6, nops=1, ops=63, time=1500))
def A(name, bounds, reach, **kw): return R(name, 'avl', bounds, reach, **kw)
prop('P20', A('history', 'nops insertions or removals of arbitrary keys from the empty tree', 'fit,no fit,inserted,removed', nops=4, thorough=dict(nops=5, time=1500)),
  A('remove', 'trees of n0 keys built in four orders, nops removals of any entry', 'removed,fit', n0=9, nops=2, remonly=1, order=9), 
  A('insert', 'trees of n0 keys built in four orders, one operation with an arbitrary key', 'inserted,removed', n0=6, nops=1, order=9),
  A('duplicates', 'few keys, several entries per key', 'inserted,removed,already present', n0=0, nops=4, keys=2, data=2))
prop('P21', R('schedule', 'luby', 'the first n calls', 'done,four rounds', n=5000, thorough=dict(n=100000)), R('reset', 'luby', 'two resets after up to 40 calls each', 'reset', n=100, resets=2))
def O(name, bounds, reach='', **kw): return R(name, 'options', bounds, reach, **kw)
prop('P22', O('values', 'three options of the vocabulary with values', part=2), *[O(f'raw{n}', f'every token of {n} characters', 'recognised', part=3, n=n) for n in (2, 3, 4, 5)],
  O('environment', 'three global or solver flags with values', 'flag,flag with value', part=4), O('numbers', 'every numeric option with numbers and malformed values', 'number,not a number', part=6))
prop('P23', O('rules0', 'every combination of the strategy options', part=0), O('rules1', 'option triples', part=1), O('observer', 'braced observer group', 'group with commands', part=5))
def W(name, bounds, reach='', **kw): return R(name, 'printer', bounds, reach, **kw)
prop('P24', W('small', 'integers up to 2000 and their negatives', 'printed,negative,grouped', part=0, hi=2000, neg=1), W('powers', 'integers around every power of ten', 'grouped', part=0, hi=30, exps=16, neg=1),
  W('largest', 'the largest 64-bit integers', 'grouped', part=0, off=2**63 - 1 - 50, hi=50, neg=1), W('pad', 'padding up to 120', 'padded', part=1), W('padmax', 'padding at the end of the range', '', part=1, lo=2**32 - 2, hi=2**32 - 1),
  W('escapes', 'texts of 6 characters', 'escaped', part=2, n=6), W('justify', 'texts of 7 characters', 'several lines', part=3, n=7), W('time', 'durations', 'done', part=4))
def Y(name, bounds, reach, **kw): return R(name, 'types', bounds, reach, **kw)
prop('P25', Y('literals', 'every pair of literals of variables below 2^31', 'positive,negative', part=0), Y('numbers', 'all 32-bit numbers', 'numbers', part=1),
  Y('printed', 'numbers around powers of ten and at the end of the range', 'printed', part=2), Y('vectors', 'vectors of n entries, any index and entry', 'vector', part=3))
def Z(name, bounds, reach, **kw): kw.setdefault('mode', 95); return R(name, 'phase', bounds, reach, **kw)
h26 = 'random clauses, every history of nops operations: decision of the solver, own decision, synchronisation, suggestion of any polarity; each decision is propagated; then solving'
prop('P26', Z('history', h26, 'suggested,synchronise,default,own decision,answer sat', fam=1, nv=4, nfix=7, bits=0, len=3, lists=1, nops=3, thorough=dict(mode=99, nops=4)),
  Z('conflicts', h26 + ' (fewer variables, suggestions excluded)', 'synchronise,conflict,own decision,answer unsat,answer sat', suggest=0, fam=1, nv=5, nfix=26, bits=0, len=3, lists=5, nops=3, thorough=dict(mode=99, nops=5)),
  Z('assumed', 'random clauses, an own decision and a decision of the solver, then twice: synchronising, assuming any literal (which undoes decisions when it is false) and a decision of the solver', 'synchronise,assumed,assumed false,synchronised,own decision,answer sat', mode=96, suggest=0, assume=1, fam=1, nv=4, nfix=3, bits=0, len=2, lists=6, nops=8, script=14314312),
  Z('unused', h26 + ', variables in no clause ignored', 'suggested,synchronise,default,sat', iuv=1, mode=95, fam=1, nv=4, nfix=2, bits=0, len=2, lists=2, nops=3))
