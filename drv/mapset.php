<?php
// Sets and maps against a list-of-pairs reference (arg: class name).
require __DIR__ . '/ref.php';
$C = $argv[1]; $CLS = "Teds\\$C";
$MAP = str_ends_with($C, 'Map'); $SORTED = !str_contains($C, 'Hash'); $INT = str_contains($C, 'Int'); $STR = str_contains($C, 'String'); $IMM = str_starts_with($C, 'Immutable'); $TREE = str_contains($C, 'Tree');
$VEC = $INT || $STR;
$REMF = $C === 'SortedIntVectorSet' && (new Teds\SortedIntVectorSet([1]))->remove(1) === false; if ($REMF) echo "DRVKNOWN sortedintvectorset-remove-false\n";
class KA {} class KB {} enum KE { case P; case Q; }

function keypool(): array {
    global $INT, $STR, $VEC; static $objs; $objs ??= [new KA, new KA, new KB, KE::P, KE::Q];
    if ($INT) return rnd([[0, 1, 2, 3, 5, 9], [0, -1, 1, 127, 128, -128, -129, 126], [32767, 32768, -32768, -32769, 0, 200], [PHP_INT_MAX, PHP_INT_MIN, 0, 2147483647, 2147483648, -2147483648, -2147483649, 1], range(-40, 60, 3)]);
    $s = ['', 'a', 'b', 'ab', 'Ez', 'FY', 'EzEz', 'EzFY', 'FYEz', 'FYFY', "a\0", "\xff", '1', '10', '9', str_repeat('x', 254), str_repeat('x', 255), str_repeat('x', 300), 'z'];
    if ($STR) return rnd([$s, array_slice($s, 0, 8), ['q', 'w', 'e', 'r', 't', 'y'], array_map(fn($i) => "k" . ($i * 7 % 50), range(0, 40))]);
    return rnd([
        [1, 2, 3, 4, 5, 6], [1, 1.0, '1', true, [1], ['1'], null, false, 0, 0.0, -0.0, ''], [NAN, -NAN, INF, -INF, 0.0, -0.0, 0, 1.5, 2, 2.0], $s, $objs,
        [1 << 53, (1 << 53) + 1, 9007199254740992.0, 9007199254740994.0, PHP_INT_MAX, PHP_INT_MIN, 9223372036854775807.0, -9223372036854775808.0],
        range(0, 60), range(-100, 100, 8), [[], [1], [1, 2], [2, 1], ['a' => 1], ['b' => 1], [[1]], [NAN], [1.0], ['1']], array_map(fn($i) => $i * 8, range(0, 20)), array_map(fn($i) => $i << 32, range(0, 12)),
        array_merge([null, true, 3, 2.5, 'str', [0]], $objs),
    ]);
}
$POOL = [];
function gk() { global $POOL, $INT, $STR; if (chance(4) && !$INT && !$STR) return rnd([null, 7, 'fresh', 1.25, [5]]); return rnd($POOL); }
function gv() { static $n = 0; return rnd([fn() => mt_rand(0, 5), fn() => null, fn() => false, fn() => 'v' . mt_rand(0, 3), fn() => [mt_rand(0, 2)], fn() => new Obj(1), fn() => 1.5])(); }
function gpairs(int $max): array { global $MAP; $p = []; for ($i = mt_rand(0, $max); $i > 0; $i--) { $k = gk(); $p[] = [$k, $MAP ? gv() : $k]; } return $p; }
function srcOf(array $pairs, int $form) {
    global $MAP; $vals = array_column($pairs, 1);
    if ($MAP) { if ($form === 0) { $ok = true; $a = []; foreach ($pairs as [$k, $v]) { if (!is_int($k) && !is_string($k)) { $ok = false; break; } $a[$k] = $v; } if ($ok) return $a; }
        return $form === 1 ? (function () use ($pairs) { foreach ($pairs as [$k, $v]) yield $k => $v; })() : new PairIter($pairs); }
    return $form === 0 ? $vals : ($form === 1 ? (function () use ($vals) { foreach ($vals as $v) yield $v; })() : ($form === 2 ? new ArrayIterator($vals) : ['q' => 0] + array_combine(array_map(fn($i) => "s$i", array_keys($vals)), $vals)));
}
function unser(string $cls, array $data) { return unserialize('O:' . strlen($cls) . ':"' . $cls . '"' . substr(serialize($data), 1)); }
// ---- reference
function mfind(array $m, $k): int { foreach ($m as $i => [$q]) if (seq($q, $k)) return $i; return -1; }
function mset(array $m, $k, $v): array {
    global $SORTED, $MAP; $i = mfind($m, $k);
    if ($i >= 0) { if ($MAP) $m[$i][1] = $v; return $m; }
    if (!$SORTED) { $m[] = [$k, $v]; return $m; }
    for ($i = 0; $i < count($m) && ord2($m[$i][0], $k) < 0; $i++); array_splice($m, $i, 0, [[$k, $v]]); return $m;
}
function mfrom(array $pairs, ?array $m = []): array { foreach ($pairs as [$k, $v]) $m = mset($m, $k, $v); return $m; }
function nonan($v): bool { if (is_float($v)) return !is_nan($v); if (is_array($v)) { foreach ($v as $x) if (!nonan($x)) return false; } return true; }

function genops(int $i): array {
    global $POOL, $MAP, $IMM, $SORTED, $VEC, $INT; $POOL = keypool(); $long = $i % 17 === 0; if ($i % 29 === 3 && $INT) $POOL = range(-120, 400, 4); elseif ($i % 29 === 3 && !$VEC) $POOL = range(0, 400);
    $ops = [['new', srcOfSpec($long ? 40 : 6)]];
    $n = $long ? 120 : mt_rand(1, 30);
    $mut = $MAP ? ['set', 'set', 'set', 'oset', 'unset', 'ounset'] : ['add', 'add', 'add', 'remove'];
    if (!$MAP && !$VEC) $mut[] = 'remove';
    if ($SORTED && !$STR_ = ($GLOBALS['STR'] || $IMM)) { $mut[] = 'pop'; if (!$INT) { $mut[] = 'popFront'; $mut[] = 'shift'; } }
    $phase = 0;
    for ($j = 0; $j < $n; $j++) {
        if ($j % 25 === 0) $phase = mt_rand(0, 2);
        if (chance(2)) { $ops[] = ['clear']; continue; }
        if (chance(8)) { $ops[] = [rnd(['clone', 'ser', 'state', 'unserjunk', 'reconstruct', 'export', 'throwctor', 'frompairs', 'badarg', 'debug'])]; if (end($ops)[0] === 'throwctor') $ops[count($ops) - 1][] = gpairs(6); if (end($ops)[0] === 'unserjunk') $ops[count($ops) - 1][] = gpairs(6); continue; }
        if (chance(25)) { $ops[] = ['look', gk()]; continue; }
        $o = rnd($mut); if ($phase === 0 && chance(60)) $o = $mut[0]; if ($phase === 1 && chance(50)) $o = $MAP ? 'unset' : 'remove';
        $ops[] = match ($o) { 'set', 'oset' => [$o, gk(), gv()], 'add', 'remove', 'unset', 'ounset' => [$o, gk()], default => [$o] };
    }
    return $ops;
}
function srcOfSpec(int $n): array { return [gpairs($n), mt_rand(0, 3)]; }

function check($s, array $m): ?string {
    global $MAP, $TREE, $SORTED, $VEC, $INT;
    if (count($s) !== count($m) || $s->count() !== count($m) || $s->isEmpty() !== !$m) return 'count() = ' . count($s) . ', expected ' . count($m);
    $ks = array_column($m, 0); $vs = array_column($m, 1);
    $g = $s->values(); if (!array_is_list($g) || !same($g, $vs)) return 'values() = ' . show($g) . ', expected ' . show($vs);
    if ($MAP) { if (!same($s->keys(), $ks)) return 'keys() = ' . show($s->keys()) . ', expected ' . show($ks); if (!same($s->toPairs(), $m)) return 'toPairs() = ' . show($s->toPairs()); }
    if ($TREE && !$s->debugIsBalanced()) return 'tree not balanced';
    $i = 0; foreach ($s as $k => $v) { if ($i >= count($m)) return 'iteration too long'; if (!same($v, $vs[$i]) || !same($k, $MAP ? $ks[$i] : ($VEC ? $i : $vs[$i]))) return "iteration element $i: " . show($k) . ' => ' . show($v) . ', expected ' . show($m[$i]); $i++; }
    if ($i !== count($m)) return "iteration yields $i of " . count($m);
    if ($SORTED) {
        $ends = $MAP ? [['first', 0, 1], ['last', 1, 1], ['bottom', 0, 1], ['top', 1, 1], ['firstKey', 0, 0], ['lastKey', 1, 0], ['bottomKey', 0, 0], ['topKey', 1, 0]] : ($VEC ? [['first', 0, 1], ['last', 1, 1]] : [['first', 0, 1], ['last', 1, 1], ['bottom', 0, 1], ['top', 1, 1]]);
        foreach ($ends as [$f, $e, $w]) { $r = attempt(fn() => $s->$f()); if ($m) { $x = $m[$e ? count($m) - 1 : 0][$w]; if ($r[0] !== 'ret' || !same($r[1], $x)) return "$f() gives " . show($r) . ', expected ' . show($x); } elseif ($r[0] !== 'exc' || $r[1] !== 'UnderflowException') return "$f() on empty gives " . show($r); }
    }
    if ($VEC) { foreach ($m as $i => [$k]) { if ($s->get($i) !== $k || $s->indexOf($k) !== $i || $s->contains($k) !== true) return "get/indexOf/contains at $i"; }
        foreach ([-1, count($m), PHP_INT_MAX, PHP_INT_MIN] as $o) { $r = attempt(fn() => $s->get($o)); if ($r[0] !== 'exc' || $r[1] !== 'OutOfBoundsException') return "get($o) gives " . show($r); }
        if (!same($s->toArray(), $vs)) return 'toArray()'; if (json_encode($vs) !== false && json_encode($s) !== json_encode($vs)) return 'json ' . json_encode($s); }
    return null;
}
function lookup($s, array $m, $k): ?string {
    global $MAP, $VEC, $INT, $STR; $i = mfind($m, $k); $has = $i >= 0;
    if (!$MAP) { if ($s->contains($k) !== $has) return 'contains(' . show($k) . ') = ' . show(!$has); if ($VEC) { $r = $s->indexOf($k); if ($r !== ($has ? $i : null)) return 'indexOf(' . show($k) . ') = ' . show($r); foreach ([1.0, null, '1', true, [1], new KA, $INT ? (string)$k : 5, $INT ? (float)$k : 1.5] as $b) if (($INT ? !is_int($b) : !is_string($b)) && $s->contains($b)) return 'contains(' . show($b) . ') is true'; } return null; }
    if ($s->containsKey($k) !== $has) return 'containsKey(' . show($k) . ') = ' . show(!$has);
    $v = $has ? $m[$i][1] : null;
    foreach ([[fn() => $s[$k], null], [fn() => $s->offsetGet($k), null], [fn() => $s->get($k), null]] as [$f]) { $r = attempt($f); if ($has ? ($r[0] !== 'ret' || !same($r[1], $v)) : ($r[0] !== 'exc' || $r[1] !== 'OutOfBoundsException')) return 'read of ' . show($k) . ' gives ' . show($r) . ', expected ' . ($has ? show($v) : 'OutOfBoundsException'); }
    $d = new KA; if (!same($s->get($k, $d), $has ? $v : $d)) return 'get with default of ' . show($k); if ($s->get($k, null) !== ($has ? $v : null) && nonan($v)) return 'get with null default of ' . show($k);
    if (isset($s[$k]) !== ($has && $v !== null) || $s->offsetExists($k) !== ($has && $v !== null) || empty($s[$k]) !== !($has && $v)) return 'isset/empty of ' . show($k);
    if (($s[$k] ?? $d) !== ($has && $v !== null ? $v : $d) && nonan($v)) return '?? of ' . show($k);
    foreach ([$v, $k, 99] as $w) if (nonan($w)) { $e = false; foreach ($m as [, $x]) if ($x === $w) $e = true; if ($s->contains($w) !== $e || $s->containsValue($w) !== $e) return 'contains(' . show($w) . ') of the values = ' . show(!$e); }
    return null;
}
function run(array $ops): ?string {
    global $CLS, $MAP, $IMM, $VEC, $INT, $STR, $SORTED, $TREE;
    $err = (function () use ($ops, $CLS, $MAP, $IMM, $VEC, $INT, $STR, $SORTED, $TREE): ?string {
        $s = null; $m = []; $keep = [];
        foreach ($ops as $oi => $o) {
            if ($o[0] === 'new' || $s === null) { if ($o[0] === 'new') { [$pairs, $form] = $o[1]; if (!$MAP && $form === 3 && !$STR && !$INT) $pairs[] = $p = null; if (!$MAP && $form === 3) { $pairs = array_values(array_filter($pairs)); $src = array_combine(array_map(fn($i) => "s$i", array_keys($pairs)), array_column($pairs, 1)); } else $src = srcOf($pairs, $form); $s = new $CLS($src); if (is_array($src) && $MAP) { $pairs = []; foreach ($src as $k => $v) $pairs[] = [$k, $v]; } $m = mfrom($pairs); unset($src, $pairs); } else { $s = new $CLS(); } }
            $before = $m; $r = null; $exp = null; $expr = ['ret', null];
            switch ($o[0]) {
                case 'new': $r = $expr; break;
                case 'set': $r = attempt(function () use ($s, $o) { $s[$o[1]] = $o[2]; }); $m = mset($m, $o[1], $o[2]); break;
                case 'oset': $r = attempt(fn() => $s->offsetSet($o[1], $o[2])); $m = mset($m, $o[1], $o[2]); break;
                case 'unset': case 'ounset': $r = attempt(function () use ($s, $o) { if ($o[0] === 'unset') unset($s[$o[1]]); else $s->offsetUnset($o[1]); }); $i = mfind($m, $o[1]); if ($i >= 0) array_splice($m, $i, 1); break;
                case 'add': $i = mfind($m, $o[1]); $r = attempt(fn() => $s->add($o[1])); if (!$IMM) { $expr = ['ret', $i < 0]; $m = mset($m, $o[1], $o[1]); } break;
                case 'remove': $i = mfind($m, $o[1]); $r = attempt(fn() => $s->remove($o[1])); if (!$IMM) { $expr = ['ret', $i >= 0 && !$GLOBALS['REMF']]; if ($i >= 0) array_splice($m, $i, 1); } break;
                case 'pop': case 'popFront': case 'shift': $f = $o[0]; $r = attempt(fn() => $s->$f()); if (!$m) $expr = ['exc', 'UnderflowException']; else { $e = $f === 'pop' ? array_pop($m) : array_shift($m); $expr = ['ret', $MAP ? $e : $e[0]]; unset($e); } break;
                case 'clear': $r = attempt(fn() => $s->clear()); if (!$IMM) $m = []; break;
                case 'look': if ($x = lookup($s, $m, $o[1])) return "op #$oi " . $x; continue 2;
                case 'clone': $c = clone $s; if ($x = check($c, $m)) return "clone: $x"; if (!$IMM) { if (chance(50)) { $keep = [$s, $m]; $s = $c; } else { $keep = [$c, $m]; } } unset($c); $r = $expr; break;
                case 'ser': $c = unserialize(serialize($s)); $ok = true; foreach ($m as [$k, $v]) { if (is_object($k) && !($k instanceof UnitEnum) || is_object($v) && !($v instanceof UnitEnum) || is_float($k) && is_nan($k)) $ok = false; }
                    if (get_class($c) !== $CLS || count($c) !== count($m)) return 'unserialize(serialize()) has ' . count($c) . ' elements'; if ($ok && ($x = check($c, $m))) return "after unserialize: $x";
                    if ($ok && $m) foreach ([0, count($m) - 1] as $q) if ($x = lookup($c, $m, $m[$q][0])) return "after unserialize: $x"; if (chance(60) && $ok) $s = $c; unset($c); $r = $expr; break;
                case 'state': $c = $CLS::__set_state($MAP ? $s->toPairs() : $s->values()); if ($x = check($c, $m)) return "__set_state: $x"; if (chance(50)) $s = $c; unset($c); $r = $expr; break;
                case 'frompairs': if ($MAP) { $c = $CLS::fromPairs(chance(50) ? $s->toPairs() : new ArrayIterator($s->toPairs())); if ($x = check($c, $m)) return "fromPairs: $x"; unset($c); } else { $c = new $CLS($s); if ($x = check($c, $m)) return "new from itself: $x"; unset($c); } $r = $expr; break;
                case 'unserjunk': // a well-typed but unsorted or duplicated stream must still give a well-formed collection
                    $pairs = $o[1]; if ($VEC) { $r = $expr; break; } foreach ($pairs as $pr) foreach ($pr as $x) if (is_object($x)) $r = $expr; unset($pr, $x); if ($r === $expr) break;
                    $data = []; foreach ($pairs as [$k, $v]) { $data[] = $k; if ($MAP) $data[] = $v; } $c = unser($CLS, $data); if ($x = check($c, mfrom($pairs))) return 'after __unserialize(' . show($data) . "): $x"; unset($c, $data, $pairs);
                    foreach ([['x' => 1], ['x' => 1, 'y' => 2]] as $bad) { $r = attempt(fn() => unser($CLS, $bad)); if ($r[0] !== 'exc' && count($r[1]) !== ($MAP ? 1 : count($bad))) return '__unserialize with string keys: ' . show($r); } $r = $expr; break;
                case 'reconstruct': foreach ([fn() => $s->__construct([1, 2]), fn() => $s->__unserialize($MAP ? [1, 2] : [1])] as $f) { $r = attempt($f); if ($r[0] !== 'exc') return 'second construction accepted'; } unset($f); $r = $expr; break;
                case 'export': $x = $s->jsonSerialize(); if (!same($x, $MAP ? $m : array_column($m, 0))) return 'jsonSerialize() = ' . show($x); ob_start(); var_dump($s); var_export($s); ob_end_clean();
                    $a = []; $ok = true; foreach ($m as [$k, $v]) { if (is_int($k) || is_string($k)) $a[$k] = $v; else $ok = false; } if ($ok && !$VEC && !same($s->toArray(), $a)) return 'toArray() = ' . show($s->toArray()); if (!$ok) attempt(fn() => $s->toArray()); unset($x, $a); $r = $expr; break;
                case 'throwctor': $n = count($o[1]); $at = mt_rand(0, $n); $r = attempt(fn() => new $CLS(new ThrowingIter(array_column($o[1], 1), $at))); if ($r[0] !== 'exc' || $r[1] !== 'DomainException') return 'exception of the source lost: ' . show($r); $r = $expr; break;
                case 'badarg': if ($VEC) { foreach ([fn($b) => $s->add($b), fn($b) => new $CLS([$b]), fn($b) => new $CLS(new ArrayIterator([$INT ? 3 : 'q', $b, $INT ? 4 : 'r'])), fn($b) => $s->remove($b)] as $fi => $f) foreach ($INT ? ['1', 1.0, null, true, [], new KA] : [1, 1.5, null, true, [], new KA] as $b) { $r = attempt(fn() => $f($b)); if ($fi < 3 ? ($r[0] !== 'exc' || !($IMM && $fi === 0) && $r[1] !== 'TypeError') : ($r[0] === 'ret' && $r[1] !== false)) return 'value of another type accepted: ' . show($b) . ' by #' . $fi; } unset($f); }
                    elseif ($MAP) { $r = attempt(function () use ($s) { $s[] = 1; }); if ($r[0] !== 'exc') return '[]= accepted'; foreach ([[1], [[1]], [[1 => 2]], ['ab']] as $bad) { $r = attempt(fn() => $CLS::fromPairs($bad)); if ($r[0] !== 'exc') return 'fromPairs(' . show($bad) . ') accepted'; $r = attempt(fn() => $CLS::fromPairs(new ArrayIterator($bad))); if ($r[0] !== 'exc') return 'fromPairs(iterator ' . show($bad) . ') accepted'; $r = attempt(fn() => $CLS::__set_state($bad)); if ($r[0] !== 'exc') return '__set_state accepted'; } } $r = $expr; break;
                case 'debug': $r = attempt(function () use ($s) { $s->nosuch = 1; }); if ($r[0] !== 'exc') return 'dynamic property accepted'; if (!$IMM) { $q = ($s == clone $s); } gc_collect_cycles(); $r = $expr; break;
            }
            if ($IMM && in_array($o[0], ['add', 'remove', 'clear'])) $expr = ['exc', 'Teds\UnsupportedOperationException'];
            if ($r[0] !== $expr[0] || ($r[0] === 'exc' ? $r[1] !== $expr[1] : !same($r[1], $expr[1]))) return "op #$oi " . showop($o) . ' gives ' . show($r) . ', expected ' . show($expr);
            unset($r, $expr, $before);
            if (count($m) < 30 || $oi % 8 === 0 || $oi === count($ops) - 1) if ($x = check($s, $m)) return "after op #$oi " . showop($o) . ": $x";
            if (isset($o[1]) && !is_array($o[0]) && in_array($o[0], ['set', 'oset', 'unset', 'ounset', 'add', 'remove']) && ($x = lookup($s, $m, $o[1]))) return "after op #$oi " . showop($o) . ": $x";
            if ($keep && ($x = check($keep[0], $keep[1]))) return "clone changed by op #$oi on the other copy: $x";
        }
        return null;
    })();
    return $err;
}
function showop(array $o): string { return $o[0] === 'new' ? 'new(' . show($o[1][0]) . ",{$o[1][1]})" : $o[0] . '(' . implode(', ', array_map('show', array_slice($o, 1))) . ')'; }
function runleak(array $ops): ?string {
    mt_srand(crc32(implode('|', array_map('showop', $ops))) & 0xffff);
    $rc = []; $objs = []; foreach ($ops as $o) array_walk_recursive($o, function ($x) use (&$objs) { if (is_object($x) && !($x instanceof PairIter)) $objs[spl_object_id($x)] = $x; });
    foreach ($objs as $i => $x) $rc[$i] = refcount($x);
    $alive = Obj::$alive; $e = run($ops); if ($e !== null) return $e;
    gc_collect_cycles(); if (Obj::$alive !== $alive) return 'objects leaked or lost: ' . (Obj::$alive - $alive);
    foreach ($objs as $i => $x) if (refcount($x) !== $rc[$i]) return 'reference count of ' . show($x) . ' changed from ' . $rc[$i] . ' to ' . refcount($x);
    return null;
}
sequences($C, 1500, function ($i) { mt_srand($GLOBALS['SEED'] * 100003 + $i); return genops($i); }, 'runleak', 'showop');
// large histories
for ($round = 0; $round < max(1, (int)(4 * $SCALE)); $round++) {
    mt_srand($SEED * 77 + $round); $n = 1500; $s = new $CLS; $ref = []; logcase("$C large history round $round");
    if ($IMM) { for ($i = 0; $i < $n; $i++) { $x = $INT ? mt_rand(-3000, 3000) * rnd([1, 1, 1 << 20]) : 'x' . mt_rand(0, 3000) . str_repeat('p', rnd([0, 0, 260])); $ref["$x"] = $x; $in[] = $x; } $s = new $CLS(chance(50) ? $in : new ArrayIterator($in)); $r = array_values($ref); $INT ? sort($r, SORT_NUMERIC) : sort($r, SORT_STRING); if (!same($s->values(), $r)) fail($C, 'large construction'); foreach ($in as $x) if (!$s->contains($x)) fail($C, "contains($x)"); unset($in, $s); continue; }
    $span = rnd([200, 1000, 4000]);
    for ($i = 0; $i < $n * 2; $i++) {
        $k = $STR ? "k" . mt_rand(0, $span) : mt_rand(0, $span) * rnd([1, 1, 1]); $del = chance($i < $n ? 30 : 65); $STATS['ops']++;
        if ($del) { if ($MAP) unset($s[$k]); else { $r = $s->remove($k); if ($r !== isset($ref[$k]) && !$REMF) fail($C, "remove($k) in a large history"); } unset($ref[$k]); }
        else { if ($MAP) { $s[$k] = $i; $ref[$k] = $i; } else { $r = $s->add($k); if ($r === isset($ref[$k])) fail($C, "add($k) in a large history"); $ref[$k] = $k; } }
        if ($i % 97 === 0 || $i > $n * 2 - 3) { $e = $ref; if ($SORTED) ksort($e); if (count($s) !== count($e) || $s->values() !== array_values($e) || ($MAP && $s->keys() !== array_keys($e))) fail($C, "large history, round $round, step $i: contents differ"); if ($TREE && !$s->debugIsBalanced()) fail($C, "large history, step $i: not balanced"); for ($q = 0; $q < 30; $q++) { $k = mt_rand(0, $span); if (($MAP ? $s->containsKey($k) : $s->contains($k)) !== isset($e[$k])) fail($C, "large history: lookup of $k"); } }
    }
    $STATS['evaluations']++;
}
unset($s, $ref, $e);
leakcheck($C, function () { mt_srand(5); for ($i = 0; $i < 12; $i++) run(genops($i)); });
stats(); echo "DRVOK\n";
