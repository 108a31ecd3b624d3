<?php
// Serialization of every collection: round trips, and malformed data (arg: class name or 'all').
require __DIR__ . '/ref.php';
enum E { case P; case Q; }
class Plain { public $p = 1; }
$ALL = ['Vector', 'Deque', 'ImmutableSequence', 'LowMemoryVector', 'IntVector', 'BitVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'StrictHashSet', 'StrictHashMap', 'StrictTreeSet', 'StrictTreeMap', 'StrictSortedVectorSet', 'StrictSortedVectorMap', 'StrictMinHeap', 'StrictMaxHeap', 'ImmutableIterable', 'MutableIterable', 'CachedIterable'];
$C = $argv[1]; $LIST = $C === 'all' ? $ALL : explode(',', $C);
function kind(string $c): string { return match (true) { $c === 'BitVector' => 'bool', str_contains($c, 'Int') && !str_contains($c, 'Iter') => 'int', $c === 'ImmutableSortedStringSet' => 'str', str_contains($c, 'Map') => 'map', str_contains($c, 'Iterable') => 'pairs', str_contains($c, 'Heap') => 'heap', str_contains($c, 'Set') => 'set', default => 'seq' }; }
function ints(): array { return rnd([[0, 1, -1, 7, 127, -128], [128, -129, 300, -32768, 32767, 5], [32768, -32769, 1 << 30, -2147483648, 2147483647, 3], [1 << 40, PHP_INT_MIN, PHP_INT_MAX, 2147483648, -2147483649, 0]]); }
function value(string $k, array $pool) { return $k === 'bool' ? chance(50) : rnd($pool); }
function poolfor(string $k): array {
    if ($k === 'int') return ints(); if ($k === 'bool') return [true, false];
    if ($k === 'str') return rnd([['', 'a', 'b', 'ab', "a\0", "\xff", '1', '10'], [str_repeat('x', 126), str_repeat('x', 127), str_repeat('x', 128), str_repeat('y', 254), str_repeat('y', 255), str_repeat('z', 256), 'q'], [str_repeat('w', 16383), str_repeat('w', 16384), str_repeat('v', 70000), '', 'a'], array_map('strval', range(0, 40))]);
    return rnd([ints(), [true, false], [true, false, null], [null], [1.5, -0.0, 0.0, NAN, INF, 3.0], ['', 'a', 'b', "\0"], [null, true, 1, 1.0, '1', [1], [[]], ['k' => 'v'], E::P, E::Q], [1, 2.5, 'x', null], [[1, 2], [2, 1], [], ['a' => NAN]]]);
}
/** a collection built from a history: [class, init, ops]; ops are [method, args] applied when they exist, errors ignored */
function genops(string $c): array {
    $k = kind($c); $pool = poolfor($k); $n = rnd([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 33, 64, 65, 70]); $init = []; for ($i = 0; $i < $n; $i++) $init[] = value($k, $pool);
    $ops = [['new', [$c, $init]]];
    for ($j = mt_rand(0, 12); $j > 0; $j--) { $p2 = chance(80) ? $pool : poolfor($k); $v = value($k, $p2); $ops[] = rnd([['push', $k === 'pairs' ? [$v, mt_rand(0, 9)] : [$v]], ['pushFront', [$v]], ['pop', []], ['popFront', []], ['shift', []], ['insert', [mt_rand(0, 4), $v]], ['offsetUnset', $k === 'map' ? [$v] : [mt_rand(0, 5)]], ['set', [mt_rand(0, 5), $v]], ['setSize', [mt_rand(0, 20)]], ['add', [$v]], ['remove', [$v]], ['extract', []], ['clear', []], ['offsetSet', $k === 'map' ? [$v, mt_rand(0, 9)] : [mt_rand(0, 5), $v]], ['add', [$v]], ['push', $k === 'pairs' ? [$v, null] : [$v, $v]]]); }
    if (chance(85)) $ops = array_values(array_filter($ops, fn($o) => $o[0] !== 'clear'));
    return $ops;
}
function showop(array $o): string { return $o[0] . '(' . implode(', ', array_map('show', $o[1])) . ')'; }
function make(string $c, array $init) {
    $k = kind($c); $n = "Teds\\$c";
    if ($k === 'map' || $k === 'pairs') return $n::fromPairs(array_map(fn($v, $i) => [$v, $i], $init, array_keys($init)));
    return new $n($init);
}
/** everything observable about the contents, as a list of values or pairs */
function contents($s): array {
    if ($s instanceof Teds\StrictMinHeap || $s instanceof Teds\StrictMaxHeap) return $s->values();
    if (method_exists($s, 'toPairs')) return $s->toPairs();
    return $s->values();
}
/** the collection is internally consistent; returns a description of what is not */
function sound($s, string $c): ?string {
    $k = kind($c); $vals = contents($s); $n = count($vals);
    if (count($s) !== $n || $s->count() !== $n || $s->isEmpty() !== ($n === 0)) return 'count ' . count($s) . ' against ' . $n . ' values';
    foreach ($vals as $i => $v) if (ReflectionReference::fromArrayElement($vals, $i) !== null) return "a PHP reference is stored at $i";
    if ($k === 'map' || $k === 'pairs') foreach ($vals as $i => $v) if (!is_array($v) || array_keys($v) !== [0, 1] || ReflectionReference::fromArrayElement($v, 0) || ReflectionReference::fromArrayElement($v, 1)) return "pair $i holds a reference";
    if ($k !== 'heap') { $i = 0; foreach ($s as $key => $v) { if ($i >= $n) return 'iteration too long'; $w = $vals[$i++]; if ($k === 'map' || $k === 'pairs' ? !same([$key, $v], $w) : !same($v, $w)) return "iteration step $i differs: " . show($v) . ' against ' . show($w); } if ($i !== $n) return "iteration yields $i of $n"; }
    if ($k === 'int' || $k === 'bool' || $k === 'str') foreach ($vals as $v) if (!(['int' => 'is_int', 'bool' => 'is_bool', 'str' => 'is_string'][$k])($v)) return 'value of wrong type ' . show($v);
    $keys = $k === 'map' ? array_column($vals, 0) : $vals;
    if (str_contains($c, 'Sorted') || str_contains($c, 'Tree')) for ($i = 1; $i < $n; $i++) if (!(ord2($keys[$i - 1], $keys[$i]) < 0)) return "not strictly increasing at $i: " . show($keys[$i - 1]) . ', ' . show($keys[$i]);
    if ($k === 'set' || $k === 'map' || str_contains($c, 'SortedInt') || $k === 'str') foreach ($keys as $i => $v) if (!($k === 'map' ? $s->containsKey($v) : $s->contains($v))) return 'contains(' . show($v) . ') is false for a stored value';
    if (str_contains($c, 'Hash')) foreach ($keys as $i => $v) for ($j = 0; $j < $i; $j++) if (seq($v, $keys[$j])) return 'duplicate ' . show($v);
    if (str_contains($c, 'Tree')) { ob_start(); try { $d = method_exists($s, '__debugInfo'); } finally { ob_end_clean(); } }
    if ($k === 'seq' || $k === 'int' && $c === 'IntVector' || $k === 'bool') for ($i = 0; $i < $n; $i++) if (!same($s->get($i), $vals[$i])) return "get($i) differs";
    if ($k === 'heap') { $h = clone $s; $prev = null; for ($i = 0; $i < $n; $i++) { $v = $h->extract(); if ($i && ($c === 'StrictMinHeap' ? ord2($prev, $v) > 0 : ord2($prev, $v) < 0)) return 'heap order broken'; $prev = $v; } if (count($h) !== 0) return 'heap not empty at the end'; }
    if ($k === 'pairs') for ($i = 0; $i < $n; $i++) if (!same($s->keyAt($i), $vals[$i][0]) || !same($s->valueAt($i), $vals[$i][1])) return "keyAt/valueAt($i)";
    return null;
}
/** use it: operations after unserialization must not crash (contents are checked by sound() again) */
function exercise($s, string $c): ?string {
    $k = kind($c); $p = poolfor($k);
    foreach ([['push', $k === 'pairs' ? [1, 2] : [rnd($p)]], ['add', [rnd($p)]], ['insert', [0, rnd($p)]], ['pop', []], ['setSize', [3]], ['offsetSet', $k === 'map' ? [rnd($p), 1] : [0, rnd($p)]], ['remove', [rnd($p)]], ['pushFront', [rnd($p)]], ['popFront', []]] as [$m, $a]) if (method_exists($s, $m)) attempt(fn() => $s->$m(...$a));
    return sound($s, $c);
}
function run(array $ops): ?string {
    $s = null;
    foreach ($ops as $o) {
        if ($o[0] === 'new') { [$c, $init] = $o[1]; $s = make($c, $init); $n = "Teds\\$c"; continue; }
        if ($s === null) return null;
        if (method_exists($s, $o[0])) attempt(fn() => $s->{$o[0]}(...$o[1]));
    }
    if ($s === null) return null; $k = kind($c); $want = contents($s);
    if ($e = sound($s, $c)) return "before: $e";
    foreach (['serialize' => fn() => unserialize(serialize($s)), 'twice' => fn() => unserialize(serialize(unserialize(serialize($s)))), 'clone' => fn() => method_exists($n, 'fromPairs') && $c === 'CachedIterable' ? unserialize(serialize($s)) : unserialize(serialize(clone $s)), 'nested' => fn() => unserialize(serialize([$s, 'x', $s]))[2],
        'string' => fn() => method_exists($n, 'serialize') ? $n::unserialize($s->serialize()) : null, 'binary' => fn() => method_exists($n, 'toBinaryString') ? bin($s, $n) : null,
        'set_state' => fn() => $n::__set_state($k === 'heap' ? $want : ($k === 'map' || $k === 'pairs' ? $want : $want)), 'export' => fn() => in_array($c, ['IntVector', 'BitVector', 'LowMemoryVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet']) || preg_match('/NAN|INF|E-|\(object\)/', $x = var_export($s, true)) ? null : eval("return $x;"),
        'construct' => fn() => $k === 'map' || $k === 'pairs' ? $n::fromPairs($want) : new $n($want)] as $how => $f) {
        $r = attempt($f);
        if ($r[0] === 'exc') return "$how throws " . show($r);
        if ($r[1] === null) continue;
        if (!is_object($r[1]) || get_class($r[1]) !== $n) return "$how gives " . show($r[1]);
        $got = contents($r[1]);
        if ($k === 'heap') { usort($got, 'ord2'); $w = $want; usort($w, 'ord2'); } else $w = $want;
        if (!same($got, $w)) return "$how gives " . show($got) . ', expected ' . show($w);
        if ($e = sound($r[1], $c)) return "$how: $e";
        if ($e = exercise($r[1], $c)) return "after operations on the result of $how: $e";
        foreach ([fn() => $r[1]->__unserialize([]), fn() => $r[1]->__construct([])] as $g) if ($how === 'serialize' && method_exists($n, '__unserialize')) { $q = attempt($g); if ($q[0] !== 'exc') return 'a second initialization is accepted'; }
        if (!same(contents($s), $want)) return "$how changed the original";
    }
    return null;
}
function bin($s, string $n) { $b = $s->toBinaryString(); if (strlen($b) !== intdiv(count($s) + 7, 8)) return 'toBinaryString has ' . strlen($b) . ' bytes for ' . count($s) . ' bits'; $t = $n::fromBinaryString($b); if (count($s) % 8 === 0) return $t; for ($i = 0; $i < count($s); $i++) if ($t->get($i) !== $s->get($i)) return "bit $i differs through toBinaryString"; return null; }
// ---- malformed data
function atom(int $d): string { return rnd([fn() => 'N;', fn() => 'b:1;', fn() => 'b:0;', fn() => 'i:' . rnd([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255, 256, -1, PHP_INT_MAX]) . ';', fn() => 'd:' . rnd(['0', '-0', '1.5', 'NAN', 'INF', '9.0E+18']) . ';', fn() => str(), fn() => str(), fn() => 'R:' . mt_rand(1, 6) . ';', fn() => 'r:' . mt_rand(1, 6) . ';', fn() => $d > 2 ? 'N;' : 'a:' . ($n = mt_rand(0, 3)) . ':{' . items($n, $d + 1, false) . '}', fn() => 'E:3:"E:P";', fn() => 'O:5:"Plain":1:{s:1:"p";i:2;}'])(); }
function str(): string { $l = rnd([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 24]); $s = ''; for ($i = 0; $i < $l; $i++) $s .= chr(rnd([0, 1, 2, 3, 4, 7, 8, 127, 128, 129, 200, 254, 255, mt_rand(0, 255)])); return 's:' . $l . ':"' . $s . '";'; }
function items(int $n, int $d, bool $list): string { $s = ''; for ($i = 0; $i < $n; $i++) $s .= ($list || chance(70) ? "i:$i;" : rnd(['i:0;', 'i:7;', 'i:-1;', 's:1:"k";', 's:0:"";'])) . atom($d); return $s; }
function hostile(string $c): array {
    $cls = "Teds\\$c"; $n = rnd([0, 1, 1, 2, 2, 2, 3, 4, 5, 6]);
    $how = mt_rand(0, 9);
    if ($how < 5) { $body = items($n, 0, chance(85)); if (chance(50) && $n === 2) $body = 'i:0;i:' . rnd([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) . ';i:1;' . (chance(80) ? str() : atom(1)); return ['unserialize', ['O:' . strlen($cls) . ':"' . $cls . '":' . $n . ':{' . $body . '}']]; }
    if ($how < 7) { $g = genops($c); $s = make($c, array_slice($g[0][1][1], 0, 12)); $t = serialize($s); $p = strpos($t, '{') + 1; for ($i = mt_rand(1, 3); $i > 0; $i--) { $q = mt_rand($p, max($p, strlen($t) - 1)); $t[$q] = chance(50) ? chr(mt_rand(0, 255)) : rnd(['0', '1', '9', ';', ':', 'N', 'R', 'i', '-', "\0", "\xff"]); } return ['unserialize', [$t]]; }
    if ($how === 7 && method_exists($cls, 'serialize')) { $g = genops($c); $s = make($c, array_slice($g[0][1][1], 0, 20)); $t = $s->serialize(); for ($i = mt_rand(1, 4); $i > 0 && $t !== ''; $i--) { $q = mt_rand(0, strlen($t) - 1); $t = match (mt_rand(0, 3)) { 0 => substr($t, 0, $q), 1 => substr($t, 0, $q) . chr(mt_rand(0, 255)) . substr($t, $q + 1), 2 => substr($t, 0, $q) . substr($t, $q + 1), 3 => substr($t, 0, $q) . chr(rnd([0, 1, 127, 128, 254, 255])) . substr($t, $q) }; } return ['strunserialize', [$cls, $t]]; }
    if ($how === 8 && method_exists($cls, 'serialize')) { return ['strunserialize', [$cls, unserialize(str())]]; }
    $r = 1; $a = [&$r, 2, [&$r, 3], [1, 2], 'x', null, [1], true]; $b = []; for ($i = mt_rand(0, 5); $i > 0; $i--) { if (chance(20)) $b[] = &$r; elseif (chance(30)) { $q = [1, 2]; $q[1] = &$r; $b[] = $q; unset($q); } elseif (chance(10)) $b['k' . $i] = rnd($a); else $b[] = rnd($a); }
    return ['set_state', [$cls, $b]];
}
function runhostile(array $ops): ?string {
    foreach ($ops as [$what, $a]) {
        $GLOBALS['warnings'] = [];
        $r = attempt(fn() => match ($what) { 'unserialize' => unserialize($a[0]), 'strunserialize' => $a[0]::unserialize($a[1]), 'set_state' => $a[0]::__set_state($a[1]) });
        if ($r[0] === 'ret' && is_object($r[1]) && str_starts_with(get_class($r[1]), 'Teds\\')) {
            $c = substr(get_class($r[1]), 5); 
            if ($what !== 'unserialize' && "Teds\\$c" !== $a[0]) return "$what gives a $c";
            $e = attempt(fn() => sound($r[1], $c)); if ($e[0] === 'exc') return "$what: the result throws when read: " . show($e); if ($e[1] !== null) return "$what accepted but $e[1]";
            $e = attempt(fn() => exercise($r[1], $c)); if ($e[0] === 'exc') return "$what: the result throws when used: " . show($e); if ($e[1] !== null) return "$what accepted, after operations: $e[1]";
            $e = attempt(fn() => unserialize(serialize($r[1]))); if ($e[0] === 'exc' || $e[1] === false) return "$what: result does not survive serialization: " . show($e);
            ob_start(); var_dump($r[1]); ob_end_clean(); 
        } elseif ($r[0] === 'ret' && $what !== 'unserialize') return "$what gives " . show($r[1]);
        unset($r, $e);
    }
    return null;
}
// every type tag with short binary data
function edges(string $c): void {
    $n = "Teds\\$c";
    for ($t = -1; $t < 10; $t++) foreach (['', "\0", "\1", "a\7", 'abcdefgh', 'abcdefghi', [], [1], null] as $d) foreach ([[$t, $d], [$d]] as $p) {
        if (($e = runhostile([['unserialize', ['O:' . strlen($n) . ':"' . $n . '":' . substr(serialize($p), 2)]]])) !== null) fail("$c edge: " . $e, show($p));
    }
}
foreach ($LIST as $c) {
    edges($c);
    sequences("$c round trip", 250, function ($i) use ($c) { mt_srand($GLOBALS['SEED'] * 1009 + $i); return genops($c); }, 'run', 'showop');
    sequences("$c malformed", 900, function ($i) use ($c) { mt_srand($GLOBALS['SEED'] * 2003 + $i); return [hostile($c)]; }, 'runhostile', 'showop');
    leakcheck($c, function () use ($c) { mt_srand(11); edges($c); for ($i = 0; $i < 15; $i++) run(genops($c)); for ($i = 0; $i < 40; $i++) runhostile([hostile($c)]); });
}
stats(); echo "DRVOK\n";
