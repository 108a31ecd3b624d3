"""Which contracts, bounded stand-ins and concrete replay drivers decide which property."""

# drivers: (script, args, scale in the plain build, scale in the address-sanitizer build)
def D(script, *args, scale=1.0, asan=0.25):
    return (script, list(args), scale, asan)

SEQ = ['Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'ImmutableSequence']

PROPS = {
    'C01': dict(specs=['Vector/methods', 'Vector/dim'], drivers=[D('seq.php', 'Vector')]),
    'C02': dict(bounded='insert() and offsetUnset() on a non-empty deque (the moves of elements inside the ring buffer)', specs=['Deque/methods', 'Deque/dim'], drivers=[D('seq.php', 'Deque')]),
    'C03': dict(bounded='insert()/pushFront()/unshift() of more than two values into a vector of 8 to 32 bit elements', specs=['IntVector/methods', 'IntVector/dim'], drivers=[D('seq.php', 'IntVector')]),
    'C04': dict(bounded='insert()/pushFront()/unshift() of more than two values into a vector not yet stored as zvals', specs=['LowMemoryVector/methods', 'LowMemoryVector/dim'], drivers=[D('seq.php', 'LowMemoryVector')]),
    'C05': dict(specs=[], drivers=[D('seq.php', 'BitVector')]),
    'C06': dict(specs=['ImmutableSequence/methods', 'ImmutableSequence/dim'], drivers=[D('seq.php', 'ImmutableSequence')]),
    'C07': dict(bounded='CachedIterable; fromPairs(), __set_state(), __serialize(), __unserialize() and toArray() of MutableIterable and ImmutableIterable', specs=[c + '/' + p for c in ('MutableIterable', 'ImmutableIterable') for p in ('methods', 'dim')], drivers=[D('iterables.php', c) for c in ('CachedIterable', 'MutableIterable', 'ImmutableIterable')]),
    'C08': dict(specs=[], drivers=[D('mapset.php', c) for c in ('StrictHashSet', 'StrictHashMap')]),
    'C09': dict(specs=[], drivers=[D('mapset.php', c) for c in ('StrictTreeSet', 'StrictTreeMap')]),
    'C10': dict(bounded='the constructors, fromPairs(), __serialize(), __unserialize(), __set_state() and toArray()', specs=[c + '/' + p for c in ('StrictSortedVectorSet', 'StrictSortedVectorMap') for p in ('methods', 'dim')], drivers=[D('mapset.php', c) for c in ('StrictSortedVectorSet', 'StrictSortedVectorMap')]),
    'C11': dict(specs=[], drivers=[D('heaps.php', c) for c in ('StrictMinHeap', 'StrictMaxHeap')]),
    'C12': dict(specs=[], drivers=[D('mapset.php', c) for c in ('SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet')]),
    'C13': dict(bounded='strict_hash of arrays with deleted slots and of cyclic arrays', specs=['order/all'], drivers=[D('funcs.php', 'order')]),
    'C14': dict(bounded='LowMemoryVector of only booleans or nulls, BitVector, the iterables, the sets, the maps, the heaps', specs=['Vector/ser', 'ImmutableSequence/ser', 'Deque/ser', 'IntVector/ser', 'LowMemoryVector/ser'], drivers=[D('ser.php', 'all', scale=3, asan=0.6)]),
    'C15': dict(bounded='BitVector, CachedIterable, the sets other than StrictSortedVectorSet, the maps other than StrictSortedVectorMap, the heaps', specs=[c + '/iter' for c in ('Vector', 'ImmutableSequence', 'Deque', 'IntVector', 'LowMemoryVector', 'StrictSortedVectorSet', 'StrictSortedVectorMap', 'MutableIterable', 'ImmutableIterable')], drivers=[D('iter.php', 'all', scale=3, asan=0.6)]),
    'C16': dict(bounded='BitVector, CachedIterable, the sets other than StrictSortedVectorSet, the maps other than StrictSortedVectorMap, the heaps', specs=[c + '/mem' for c in ('Vector', 'ImmutableSequence', 'Deque', 'IntVector', 'LowMemoryVector', 'StrictSortedVectorSet', 'StrictSortedVectorMap', 'MutableIterable', 'ImmutableIterable')], drivers=[D('mem.php', 'all', scale=2, asan=0.5)]),
    'C17': dict(bounded='unique_values and binary_search', specs=['teds/funcs'], drivers=[D('funcs.php', 'iter')]),
    'C18': dict(specs=['%s/%s' % (c, p) for c in ('EmptySequence', 'EmptySet', 'EmptyMap') for p in ('methods', 'dim', 'mem', 'iter')], drivers=[D('empty.php')]),
}
EXPL = ('No contract is discharged for this property yet: bounded, model-based exploration of the built extension (plain and AddressSanitizer builds) against an independent reference in PHP. It shows the presence of violations only.')
for _p in PROPS.values():
    if _p.get('bounded'):
        _p.update(level='exploration', note='Contracts are discharged (as described for C01) for: ' + ', '.join(sorted({x.split('/')[0] for x in _p['specs']})) + '. Bounded stand-in only (model-based operation sequences on the built extension, plain and with AddressSanitizer, not counted as proved) for: ' + _p['bounded'] + '.',
                  technique='contract-based deductive verification of the LLVM IR for part of the classes, bounded stand-in for the rest (see level_note)')
    if not _p['specs']:
        _p.update(level='exploration', note=EXPL, technique='bounded stand-in: model-based operation sequences on the built extension, plain and with AddressSanitizer (no contract discharged)')
KNOWN = {
    'bitvector-indexof-inverted': ('C05', 'Teds\\BitVector::indexOf/contains(v) look for the first bit that differs from v: (new Teds\\BitVector([true]))->indexOf(true) is null and ->indexOf(false) is 0 (tests/BitVector/indexOf.phpt pins this output)'),
    'sortedintvectorset-remove-false': ('C12', 'Teds\\SortedIntVectorSet::remove(v) returns false although it removed v (tests/SortedIntVectorSet/addRemove.phpt pins this output)'),
}

NOTE = ('Per method, entry case and argument shape: postconditions, representation invariant, memory safety and ownership are discharged for all inputs and all loop iterations from the current source. '
        'Assumes the contracts given to the PHP engine functions (tvc/models.py), the C-to-IR compilation, tvc itself and the solvers. Cases listed in the evidence under cases_open are covered only by the '
        'bounded stand-ins (bounded symbolic execution, and model-based operation sequences on the built extension, plain and with AddressSanitizer), and are not counted as proved.')
NOTES = 'Every check compiles /repo into a scratch directory under /tmp and removes it. No hooks are needed in /repo.'
