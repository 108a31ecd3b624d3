<?php
// StrictMinHeap / StrictMaxHeap against a multiset reference (arg: class name).
require __DIR__ . '/ref.php';
$C = $argv[1]; $CLS = "Teds\\$C"; $MIN = $C === 'StrictMinHeap';
$PEER = $MIN ? 'Teds\StrictMaxHeap' : 'Teds\StrictMinHeap';
class KA {} class KB {} enum KE { case P; case Q; }
function pool(): array {
    static $objs; $objs ??= [new KA, new KA, new KB, KE::P];
    return rnd([[1, 2, 3, 4, 5, 6], range(0, 60), range(-20, 20), [1, 1.0, '1', true, [1], ['1'], null, false, 0, 0.0, -0.0, ''], [NAN, INF, -INF, 0.0, 0, 1.5, 2, 2.0], ['a', 'b', 'ab', '1', '10', '9', ''], array_merge([null, true, 3, 2.5, 'str', [0]], $objs),
        [1 << 53, (1 << 53) + 1, 9007199254740992.0, 9007199254740994.0, PHP_INT_MAX, PHP_INT_MIN, 9223372036854775807.0]]);
}
$POOL = [];
function gv() { global $POOL; return rnd($POOL); }
function gl(int $n): array { $r = []; for ($i = mt_rand(0, $n); $i > 0; $i--) $r[] = gv(); return $r; }
function hsort(array $m): array { global $MIN; usort($m, fn($a, $b) => $MIN ? ord2($a, $b) : -ord2($a, $b)); return $m; }
function genops(int $i): array {
    global $POOL; $POOL = pool(); $long = $i % 13 === 0; $ops = [['new', gl($long ? 40 : 8), mt_rand(0, 3)]]; $phase = 0;
    for ($j = 0, $n = $long ? 120 : mt_rand(1, 30); $j < $n; $j++) {
        if ($j % 20 === 0) $phase = mt_rand(0, 2);
        $o = rnd(['add', 'add', 'add', 'extract', 'extract', 'next', 'top', 'current']);
        if ($phase === 0 && chance(50)) $o = 'add'; if ($phase === 1 && chance(50)) $o = 'extract';
        if (chance(8)) $o = rnd(['clone', 'ser', 'state', 'clear', 'iterate', 'drain', 'look', 'badser', 'throwctor', 'reconstruct', 'export', 'dyn']);
        $ops[] = match ($o) { 'add' => ['add', gv()], 'look' => ['look', gv()], 'throwctor' => ['throwctor', gl(5)], default => [$o] };
    }
    $ops[] = ['drain'];
    return $ops;
}
function check($h, array $m): ?string { // $m sorted: most extreme first
    if (count($h) !== count($m) || $h->count() !== count($m) || $h->isEmpty() !== !$m || $h->valid() !== (bool)$m) return 'count() = ' . count($h) . ', expected ' . count($m);
    attempt(fn() => $h->toArray()); foreach (['values'] as $f) { $g = $h->$f(); if (!array_is_list($g) || count($g) !== count($m) || !msame($g, $m)) return "$f() = " . show($g) . ', expected the multiset ' . show($m); }
    if ($m) { foreach (['top', 'current'] as $f) { $t = attempt(fn() => $h->$f()); if ($t[0] !== 'ret' || ord2($t[1], $m[0]) !== 0) return "$f() = " . show($t) . ', expected ' . show($m[0]); } } 
    else foreach (['top', 'current', 'extract', 'next'] as $f) { $t = attempt(fn() => $h->$f()); if ($t[0] !== 'exc' || $t[1] !== 'UnderflowException') return "$f() on an empty heap gives " . show($t); }
    if (count($h) !== count($m)) return 'reading changed the heap';
    return null;
}
function msame(array $a, array $b): bool { $a = hsort($a); $b = hsort($b); foreach ($a as $i => $x) if (ord2($x, $b[$i]) !== 0 || gettype($x) !== gettype($b[$i]) && !(is_float($x) || is_float($b[$i]))) return false; return true; }
function msetrem(array $m, $v): ?array { foreach ($m as $i => $x) if (ord2($x, $v) === 0) { array_splice($m, $i, 1); return $m; } return null; }
function run(array $ops): ?string {
    global $CLS, $MIN, $PEER;
    $h = null; $m = []; $keep = [];
    foreach ($ops as $oi => $o) {
        if ($o[0] === 'new') { $src = $o[1]; $h = new $CLS(match ($o[2]) { 0 => $src, 1 => new ArrayIterator($src), 2 => (function () use ($src) { foreach ($src as $x) yield 'k' => $x; })(), 3 => array_combine(array_map(fn($i) => "s$i", array_keys($src)), $src) }); $m = hsort($src); unset($src); }
        elseif ($h === null) $h = new $CLS;
        $x = null;
        switch ($o[0]) {
            case 'new': break;
            case 'add': $r = $h->add($o[1]); if ($r !== null) return 'add returns ' . show($r); $m = hsort([...$m, $o[1]]); break;
            case 'extract': case 'top': case 'current': case 'next':
                $f = $o[0]; $r = attempt(fn() => $h->$f());
                if (!$m) { if ($r[0] !== 'exc' || $r[1] !== 'UnderflowException') return "$f() on empty: " . show($r); break; }
                if ($r[0] !== 'ret') return "$f(): " . show($r);
                if ($f === 'next') { array_shift($m); if ($r[1] !== null) return 'next() returns ' . show($r[1]); } // equal elements are interchangeable for the reference
                else { if (ord2($r[1], $m[0]) !== 0) return "$f() = " . show($r[1]) . ', expected ' . show($m[0]); if ($f === 'extract') { $m2 = msetrem($m, $r[1]); if ($m2 === null) return "extract() gives a value never added: " . show($r[1]); $m = $m2; unset($m2); } }
                unset($r); break;
            case 'clear': $h->clear(); $m = []; break;
            case 'look': $e = false; foreach ($m as $q) if ($q === $o[1]) $e = true; if ($h->contains($o[1]) !== $e) return 'contains(' . show($o[1]) . ') = ' . show(!$e); break;
            case 'clone': $c = clone $h; if ($x = check($c, $m)) return "clone: $x"; $keep = chance(50) ? [$c, $m] : [$h, $m]; if ($keep[0] === $h) $h = $c; unset($c); break;
            case 'ser': $ok = true; foreach ($m as $q) if (is_object($q) && !$q instanceof UnitEnum) $ok = false; if (!$ok) break; $c = unserialize(serialize($h)); if (get_class($c) !== $CLS || ($x = check($c, $m))) return "unserialize(serialize()): $x"; if (chance(60)) $h = $c; unset($c); break;
            case 'badser': $c = unserialize('O:' . strlen($CLS) . ':"' . $CLS . '":3:{i:0;i:5;i:7;i:1;i:2;i:3;}'); if ($x = check($c, hsort([5, 1, 3]))) return "unserialized heap: $x"; $r = attempt(fn() => unserialize('O:' . strlen($CLS) . ':"' . $CLS . '":2:{i:0;i:5;s:1:"x";i:1;}')); if ($r[0] !== 'exc') return 'string key accepted in serialized data'; unset($c, $r); break;
            case 'state': $c = $CLS::__set_state($h->values()); if (get_class($c) !== $CLS) return '__set_state gives ' . get_class($c); if ($x = check($c, $m)) return "__set_state: $x"; if (chance(60)) $h = $c; unset($c); break;
            case 'iterate': case 'drain': $n = $o[0] === 'drain' ? PHP_INT_MAX : mt_rand(1, 4); $i = 0; $last = null;
                foreach ($h as $k => $v) { if (!$m) return 'iteration yields too much'; if (ord2($v, $m[0]) !== 0) return "iteration step $i yields " . show($v) . ', expected ' . show($m[0]); $m2 = msetrem($m, $v); if ($m2 === null) return 'iteration yields a value never added: ' . show($v); if (++$i >= $n) { break; } $m = $m2; } unset($v, $m2, $last);
                if ($o[0] === 'drain') { if ($m) return 'iteration ended with ' . count($m) . ' values left'; } break;
            case 'throwctor': $at = mt_rand(0, count($o[1])); $r = attempt(fn() => new $CLS(new ThrowingIter($o[1], $at))); if ($r[0] !== 'exc' || $r[1] !== 'DomainException') return 'exception of the source lost'; unset($r); break;
            case 'reconstruct': foreach ([fn() => $h->__construct([1, 2]), fn() => $h->__unserialize([1])] as $f) { $r = attempt($f); if ($r[0] !== 'exc') return 'second construction accepted'; } unset($f, $r); break;
            case 'export': ob_start(); var_dump($h); var_export($h); json_encode($h); ob_end_clean(); break;
            case 'dyn': $r = attempt(function () use ($h) { $h->nosuch = 1; }); if ($r[0] !== 'exc') return 'dynamic property accepted'; unset($r); gc_collect_cycles(); break;
        }
        if ($x = check($h, $m)) return "after op #$oi " . showop($o) . ": $x";
        if ($keep && ($x = check($keep[0], $keep[1]))) return "clone changed by op #$oi on the other copy: $x";
    }
    return null;
}
function showop(array $o): string { return $o[0] . '(' . implode(', ', array_map('show', array_slice($o, 1))) . ')'; }
function runleak(array $ops): ?string {
    mt_srand(crc32(implode('|', array_map('showop', $ops))) & 0xffff);
    $objs = []; foreach ($ops as $o) array_walk_recursive($o, function ($x) use (&$objs) { if (is_object($x)) $objs[spl_object_id($x)] = $x; });
    $rc = array_map('refcount', $objs); $e = run($ops); if ($e !== null) return $e; gc_collect_cycles();
    foreach ($objs as $i => $x) if (refcount($x) !== $rc[$i]) return 'reference count of ' . show($x) . ' changed from ' . $rc[$i] . ' to ' . refcount($x);
    return null;
}
sequences($C, 1500, function ($i) { mt_srand($GLOBALS['SEED'] * 100003 + $i); return genops($i); }, 'runleak', 'showop');
for ($round = 0; $round < max(1, (int)(12 * $SCALE)); $round++) { // large heaps: heap sort
    mt_srand($SEED * 91 + $round); logcase("$C heap sort round $round"); $h = new $CLS; $ref = [];
    $n = mt_rand(50, 1500); $span = rnd([5, 1000, 1 << 40]); for ($i = 0; $i < $n; $i++) { $x = mt_rand(0, $span); $h->add($x); $ref[] = $x; if (chance(20)) { $e = $h->extract(); $b = $MIN ? min($ref) : max($ref); if ($e !== $b) fail($C, "large heap: extract() = $e, expected $b"); array_splice($ref, array_search($e, $ref, true), 1); } }
    sort($ref); if (!$MIN) $ref = array_reverse($ref); foreach ($ref as $i => $x) { $e = $h->extract(); if ($e !== $x) fail($C, "large heap: element $i extracted is $e, expected $x"); } if (count($h)) fail($C, 'large heap not empty'); $STATS['evaluations']++; $STATS['ops'] += 2 * $n;
}
// all permutations of small sizes
function perms(array $a): Generator { if (count($a) <= 1) { yield $a; return; } foreach ($a as $i => $x) { $r = $a; array_splice($r, $i, 1); foreach (perms($r) as $p) yield [$x, ...$p]; } }
for ($n = 1; $n <= ($SCALE < 1 ? 6 : 7); $n++) foreach (perms(range(1, $n)) as $p) { $h = new $CLS($p); $r = []; while (!$h->isEmpty()) $r[] = $h->extract(); $e = range(1, $n); if (!$MIN) $e = array_reverse($e); if ($r !== $e) fail($C, 'extracting from ' . show($p) . ' gives ' . show($r)); $STATS['evaluations']++; }
unset($h, $r, $e);
leakcheck($C, function () { mt_srand(5); for ($i = 0; $i < 12; $i++) run(genops($i)); });
stats(); echo "DRVOK\n";
