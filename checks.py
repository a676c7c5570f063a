"""What is explored for each property.

UNITS: programs (a harness compiled with some definitions and linked with an engine).
CHECKS: per property the jobs; a job is a set of units with the categories of failures that break the property.
"""


def fam(base, fams=range(3)):
    return ['%s.%d' % (base, f) for f in fams]


UNITS = {}


def unit(name, src, defs, **kw):
    UNITS[name] = dict(src=src, engine=kw.pop('engine', 'seq'), defs=defs, **kw)


for f in range(3):
    unit('handles.%d' % f, 'seq_handles.cpp', ['FAM=%d' % f])
    unit('reent.%d' % f, 'seq_reent.cpp', ['FAM=%d' % f])
    unit('array.%d' % f, 'seq_array.cpp', ['FAM=%d' % f])
    for e in range(2):
        unit('selfref%d.%d' % (e, f), 'seq_selfref.cpp', ['FAM=%d' % f, 'ESF=%d' % e])
for std in ('17', '20'):
    for base in ('handles', 'reent', 'array'):
        unit('%s.std%s' % (base, std), 'seq_%s.cpp' % base, ['FAM=3'], std='c++' + std)
    for e in range(2):
        unit('selfref%d.std%s' % (e, std), 'seq_selfref.cpp', ['FAM=3', 'ESF=%d' % e], std='c++' + std)
PARTS = ('sizes', 'args', 'types')
for i, part in enumerate(PARTS):
    for f in (0, 1, 2, 4):
        unit('create-%s.%d' % (part, f), 'seq_create.cpp', ['FAM=%d' % f, 'PART=%d' % i])
    for std in ('17', '20'):
        unit('create-%s.std%s' % (part, std), 'seq_create.cpp', ['FAM=3', 'PART=%d' % i], std='c++' + std)
for f in (0, 1):
    unit('many.%d' % f, 'seq_many.cpp', ['FAM=%d' % f, 'PART=0'])
    unit('count.%d' % f, 'seq_many.cpp', ['FAM=%d' % f, 'PART=1'])
unit('misc', 'seq_misc.cpp', ['FAM=0'])
unit('unique', 'seq_unique.cpp', ['USTD=0'])
unit('counter', 'conc_refcount.cpp', [], engine='conc')
for f in (0, 2):
    unit('threads.%d' % f, 'conc_handles.cpp', ['FAM=%d' % f], engine='conc')
    unit('threadsfrom.%d' % f, 'conc_handles.cpp', ['FAM=%d' % f, 'ESF=1'], engine='conc')
    unit('storage.%d' % f, 'conc_storage.cpp', ['FAM=%d' % f], engine='conc')
for std in ('17', '20'):
    unit('storage.std%s' % std, 'conc_storage.cpp', ['FAM=3'], engine='conc', std='c++' + std)

E1 = 'explicit-state model checking of the implementation: breadth-first search over real object states with snapshot/restore and a reference model'
B1 = ('every sequence of operations of each configuration (handles, types, operations and creations listed in DESIGN.md) until no new state appears; '
      '"runs" tells per configuration whether the search was complete')
H, R, A = fam('handles'), fam('reent'), fam('array')
CREATE = {p: ['create-%s.%d' % (p, f) for f in (0, 1, 2, 4)] for p in PARTS}
MANY = ['many.0', 'many.1']
SELF = fam('selfref0') + fam('selfref1')
REENT_Q = ['readers', 'resetters', 'assigners', 'movers', 'takers', 'creators', 'weak users', 'copiers', 'converters']
REENT_S = ['storage']


def e1(title, jobs, bounds=B1, **kw):
    return dict(technique=E1, bounds=bounds, jobs=jobs, **kw)


E2 = 'stateless model checking of the implementation: dynamic partial order reduction over all interleavings, with a vector-clock check of the memory orders, stale loads and spurious failures'
B2 = ('every program of each configuration (threads, operations and starting states listed in DESIGN.md), every interleaving of each, with up to the stated number of '
      'deviations (stale loads, spurious compare-exchange failures, overlong spinning) per execution; "runs" tells per configuration whether that was complete')
V2 = ('Every execution runs the code of /repo compiled for this run under the controlled scheduler; there is no separate model of the code. '
      'traces_validated_against_impl counts complete executions which were repeated from their schedule and gave the same outcome.')
E12 = E1 + '; and ' + E2
B12 = B1 + '; and ' + B2
V12 = ('Every transition runs the code of /repo compiled for this run; there is no separate model of the code. traces_validated_against_impl counts histories of visited '
       'states executed again from the initial state without saving or restoring, and schedules executed again, which led to the same state or outcome.')


def e2(title, jobs, **kw):
    for j in jobs:
        j.setdefault('secs', {'quick': 150, 'thorough': 600})
    return dict(technique=E2, bounds=B2, validation=V2, jobs=jobs, **kw)


def e12(title, jobs, **kw):
    return dict(technique=E12, bounds=B12, validation=V12, jobs=jobs, **kw)


def job(units, cats, **kw):
    return dict(units=units, cats=cats, **kw)


CHECKS = {
    'C01': e1('destroyed once', [
        job(H, 'life,count,deleter,mem,hang', deep_in_quick=True),
        job(A, 'life,count,mem', only=['shared']),
        job(R, 'life,count,mem', only=['converters', 'weak users', 'copiers']),
        job(MANY, 'life,count,value,mem,hang')]),
    'C02': e1('storage', [
        job(H, 'leak,mem,form,alloc', deep_in_quick=True),
        job(A, 'leak,mem,form'),
        job(SELF, 'leak,mem,form'),
        job(CREATE['sizes'], 'leak,mem,form,alloc'),
        job(R, 'leak,mem', only=['converters', 'weak users', 'copiers']),
        job(MANY, 'leak,mem')]),
    'C03': e1('values', [job(H, 'value,count,life,mem,hang', deep_in_quick=True), job(R, 'value,count', only=['converters'])]),
    'C04': e1('weak', [job(H, 'weak,@weak,@weakalias', deep_in_quick=True), job(MANY, 'weak')]),
    'C05': e1('re-entrancy', [job(R, 'all', prio=5)]),
    'C06': e1('failures', [
        job(H, 'fault,create,@fault,@adopt,@make', deep_in_quick=True),
        job(A, 'fault,create,leak,form'),
        job(SELF, 'fault,create,leak'),
        job(CREATE['args'] + CREATE['types'], 'fault,leak,mem')]),
    'C07': e1('self references', [job(SELF, 'all', deep_in_quick=True)]),
    'C08': e1('notifications', [
        job(['handles.2'], 'notify,mem', deep_in_quick=True),
        job(['reent.2'], 'notify,mem', prio=5),
        job(['array.2', 'selfref0.2', 'selfref1.2'], 'notify')]),
    'C09': e2('threads', [
        job(['threads.0', 'threadsfrom.0'], 'race,mem,leak,life,value,count,hang')]),
    'C10': e2('lock', [
        job(['threads.0', 'threadsfrom.0'], 'lock,life,value,hang,mem')]),
    'C11': e12('storage', [
        job(['storage.0', 'storage.std17'], 'lin,count,life,value,leak,mem,race,hang', skip=['destructors', 'deep: destructors']),
        job(['storage.std20'], 'lin,count,life,value,leak,mem,hang', skip=['destructors', 'deep: destructors']),
        job(['handles.0', 'handles.std17'], '@store')]),
    'C12': e12('publication and progress', [
        job(['storage.0', 'storage.std17', 'storage.std20'], 'publish,race,hang,mem,life', secs={'quick': 150, 'thorough': 600}),
        job(['reent.0', 'reent.std17'], 'all', only=['storage'], prio=5)]),
    'C13': e1('unique pointers', [
        job(['unique'], 'deleter,life,value,leak,mem,hang', only=[k + ': ' + x for k in ('stateless', 'stateful', 'function', 'array', 'array with state', 'reference', 'const reference', 'value from reference', 'function from class') for x in ('plain', 'movers', 'converters', 'releasers')], tiers=('quick',)),
        job(['unique'], 'deleter,life,value,leak,mem,hang', tiers=('thorough',))]),
    'C14': e1('dying objects', [job(['unique'], 'order,life,mem,deleter,value,leak,hang', deep_in_quick=False)]),
    'C15': e1('arrays', [job(A, 'life,deleter,create,fault,leak,form,align,value,mem,count', deep_in_quick=True)]),
    'C16': e12('counters', [
        job(['counter'], 'all', secs={'quick': 150, 'thorough': 600}),
        job(['count.0', 'count.1'], 'all')]),
    'C17': e1('storage of objects', [
        job(CREATE['sizes'], 'all'),
        job(CREATE['types'], 'align,form,leak,mem,alloc'),
        job(H + A + SELF, 'align,alloc')]),
    'C18': e1('creation', [
        job(CREATE['args'] + CREATE['types'] + ['create-args.std17', 'create-types.std17'], 'all'),
        job(A, 'create')]),
    'C19': e1('comparisons', [job(H, 'cmp', deep_in_quick=True), job(['misc'], 'all')]),
    'C20': e12('std', [
        job(['handles.std17', 'handles.std20'], 'all', deep_in_quick=False),
        job(['reent.std17', 'reent.std20'], 'all', only=['storage', 'readers']),
        job(['array.std17', 'array.std20'], 'all'),
        job(['selfref0.std17', 'selfref0.std20', 'selfref1.std17', 'selfref1.std20'], 'all'),
        job(['storage.std17', 'storage.std20'], 'all', only=['two threads', 'destructors']),
        job(['create-%s.std%s' % (p, s) for p in PARTS for s in ('17', '20')], 'all')]),
    'C21': e2('custom control blocks', [
        job(['threads.2', 'threadsfrom.2', 'storage.2'], 'notify,mem,race')]),
    'C22': e1('aliases', [job(H, '@alias,@weakalias', deep_in_quick=True)]),
}
