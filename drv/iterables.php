<?php
// ImmutableIterable / CachedIterable / MutableIterable against a list of pairs (arg: class name).
require __DIR__ . '/ref.php';
$C = $argv[1]; $CLS = "Teds\\$C"; $MUT = $C === 'MutableIterable'; $CACHED = $C === 'CachedIterable';
class KA {} class KB {} enum KE { case P; case Q; }
/** a source that counts what is consumed and can throw while producing the element numbered $failAt (method $where) */
class Src implements Iterator {
    public int $i = 0; public int $max = -1; public int $calls = 0; public array $seen = [];
    public function __construct(public array $pairs, public int $failAt = -1, public string $where = '') {}
    private function t(string $w): void { if ($w === $this->where && $this->i === $this->failAt) throw new DomainException('src'); }
    public function current(): mixed { $this->t('current'); $this->max = max($this->max, $this->i); $this->seen[] = $this->i; return $this->pairs[$this->i][1]; }
    public function key(): mixed { $this->t('key'); return $this->pairs[$this->i][0]; }
    public function next(): void { $this->i++; $this->t('next'); }
    public function rewind(): void { $this->i = 0; $this->t('rewind'); }
    public function valid(): bool { $this->t('valid'); return $this->i < count($this->pairs); }
}
function pool(): array { static $objs; $objs ??= [new KA, new KA, KE::P];
    return rnd([[1, 2, 3], [1, 1.0, '1', true, [1], null, false, 0, 0.0, ''], ['a', 'b', 'ab', '', "a\0"], array_merge($objs, [null, 5]), [[], [1], ['x' => 1], 2.5]]); }
$POOL = [];
function gk() { global $POOL; return rnd($POOL); }
function gv() { return rnd([fn() => mt_rand(0, 5), fn() => null, fn() => 'v' . mt_rand(0, 9), fn() => [mt_rand(0, 2)], fn() => new Obj(1), fn() => 1.5, fn() => gk()])(); }
function gpairs(int $max): array { $p = []; for ($i = mt_rand(0, $max); $i > 0; $i--) $p[] = [gk(), gv()]; return $p; }
function genops(int $i): array {
    global $POOL, $MUT, $CACHED; $POOL = pool(); $pairs = gpairs($i % 11 === 0 ? 30 : 7);
    $ops = [['new', $pairs, $CACHED ? mt_rand(0, 5) : mt_rand(0, 4), mt_rand(-1, count($pairs)), rnd(['current', 'key', 'next', 'valid'])]];
    for ($j = 0, $n = mt_rand(1, 25); $j < $n; $j++) {
        $o = $MUT ? rnd(['push', 'push', 'push', 'pop', 'pop', 'setKeyAt', 'setValueAt', 'setSize', 'look', 'at', 'iter', 'clear', 'shrink']) : rnd(['look', 'at', 'at', 'iter', 'keys', 'values', 'pairs', 'count', 'empty', 'toArray', 'gc', 'json', 'iter2', 'lookv', 'ht']);
        if (chance(8)) $o = rnd(['clone', 'ser', 'state', 'frompairs', 'reconstruct', 'badpairs', 'badser', 'export', 'throwctor', 'dyn']);
        if ($MUT && $o === 'clear' && chance(70)) $o = 'push';
        $ops[] = match ($o) { 'push' => [$o, gk(), gv()], 'setKeyAt' => [$o, mt_rand(-1, 9), gk()], 'setValueAt' => [$o, mt_rand(-1, 9), gv()], 'setSize' => [$o, rnd([-1, 0, 1, 2, 5, 9, 17])], 'at' => [$o, rnd([-1, 0, 1, 2, 3, 5, 7, 29, 30, PHP_INT_MAX, PHP_INT_MIN])], 'look', 'lookv' => [$o, gk(), gv()], 'iter' => [$o, mt_rand(0, 8)], 'throwctor' => [$o, gpairs(5)], default => [$o] };
    }
    return $ops;
}
function ident3($a, $b): bool { return $a === $b; }
function idx(array $m, int $w, $x): ?int { foreach ($m as $i => $p) if ($p[$w] === $x) return $i; return null; }
function check($s, array $m): ?string {
    if (count($s) !== count($m) || $s->count() !== count($m) || $s->isEmpty() !== !$m) return 'count() = ' . count($s) . '/' . $s->count() . ', expected ' . count($m);
    if (!same($s->keys(), array_column($m, 0)) || !same($s->values(), array_column($m, 1))) return 'keys()/values() = ' . show($s->keys()) . show($s->values()) . ', expected ' . show($m);
    if (!same($s->toPairs(), $m)) return 'toPairs() = ' . show($s->toPairs()) . ', expected ' . show($m);
    $i = 0; foreach ($s as $k => $v) { if ($i >= count($m)) return 'iteration too long'; if (!same($k, $m[$i][0]) || !same($v, $m[$i][1])) return "iteration step $i: " . show([$k, $v]); $i++; } if ($i !== count($m)) return "iteration yields $i of " . count($m);
    foreach ($m as $i => [$k, $v]) if (!same($s->keyAt($i), $k) || !same($s->valueAt($i), $v)) return "keyAt/valueAt($i)";
    return null;
}
function run(array $ops): ?string {
    global $CLS, $C, $MUT, $CACHED; $m = []; $s = null; $keep = []; $src = null; $fail = null; $thrown = false; $got = 0; // CachedIterable: $got elements fetched so far, $fail = number of the element that throws
    foreach ($ops as $oi => $o) {
        $x = null;
        if ($o[0] === 'new') {
            $pairs = $o[1]; $form = $o[2]; $m = $pairs;
            if ($form === 0) { $a = []; foreach ($pairs as [$k, $v]) $a[is_int($k) || is_string($k) ? $k : count($a) + 100] = $v; $m = []; foreach ($a as $k => $v) $m[] = [$k, $v]; $s = new $CLS($a); unset($a, $k, $v); $got = count($m); }
            elseif ($form === 1) $s = new $CLS((function () use ($pairs) { foreach ($pairs as [$k, $v]) yield $k => $v; })());
            elseif ($form === 2) { $a = array_column($pairs, 1); $m = []; foreach ($a as $k => $v) $m[] = [$k, $v]; $s = new $CLS(new ArrayIterator($a)); unset($a, $k, $v); }
            elseif ($form === 3) $s = $CLS::fromPairs($CACHED ? $pairs : (chance(50) ? $pairs : new ArrayIterator($pairs)));
            elseif ($form === 4) { $src = new Src($pairs); $s = new $CLS($src); }
            else { $at = $o[3]; $src = new Src($pairs, $at, $o[4]); $s = new $CLS($src); if ($at >= 0 && ($o[4] !== 'next' || $at > 0) && ($at < count($pairs) || in_array($o[4], ['next', 'valid']))) $fail = $at; }
            unset($pairs);
        } elseif ($s === null) $s = new $CLS([]);
        if ($CACHED) {
            $sh = showop($o); $need = null; $r = null;
            // ['need', n]: the operation needs elements 0..n-1; expected result by $want
            $all = count($m);
            [$need, $f, $want] = match ($o[0]) {
                'at' => [$o[1] < 0 ? PHP_INT_MAX : $o[1] + 1, fn() => [$s->keyAt($o[1]), $s->valueAt($o[1])], $o[1] >= 0 && $o[1] < $all ? ['ret', $m[$o[1]]] : ['exc', 'OutOfBoundsException']],
                'look' => [($i = idx($m, 0, $o[1])) === null ? PHP_INT_MAX : $i + 1, fn() => [$s->indexOfKey($o[1]), $s->containsKey($o[1])], ['ret', [idx($m, 0, $o[1]), idx($m, 0, $o[1]) !== null]]],
                'lookv' => [($i = idx($m, 1, $o[2])) === null ? PHP_INT_MAX : $i + 1, fn() => [$s->indexOfValue($o[2]), $s->containsValue($o[2]), $s->contains($o[2])], ['ret', [idx($m, 1, $o[2]), idx($m, 1, $o[2]) !== null, idx($m, 1, $o[2]) !== null]]],
                'iter' => [$o[1] + 1, function () use ($s, $o) { $r = []; foreach ($s as $k => $v) { if (count($r) >= $o[1]) break; $r[] = [$k, $v]; } return $r; }, ['ret', array_slice($m, 0, $o[1])]],
                'iter2' => [PHP_INT_MAX, function () use ($s) { $r = []; foreach ($s as $k => $v) { $r[] = [$k, $v]; if (count($r) === 2) foreach ($s as $k2 => $v2) { } } return $r; }, ['ret', $m]],
                'keys' => [PHP_INT_MAX, fn() => $s->keys(), ['ret', array_column($m, 0)]], 'values' => [PHP_INT_MAX, fn() => $s->values(), ['ret', array_column($m, 1)]], 'pairs' => [PHP_INT_MAX, fn() => $s->toPairs(), ['ret', $m]],
                'count' => [PHP_INT_MAX, fn() => $s->count(), ['ret', $all]], 'ht' => [PHP_INT_MAX, fn() => count($s), ['ret', $all]], 'empty' => [1, fn() => $s->isEmpty(), ['ret', !$m]], 'json' => [PHP_INT_MAX, fn() => $s->jsonSerialize(), ['ret', $m]],
                default => [null, null, null] };
            if ($need !== null) {
                $n = min($need, $all + 1); // element number $all = discovering the end
                $r = attempt($f); unset($f);
                if ($fail !== null && $n > $fail) { // the source fails before the operation can be answered
                    if ($r[0] !== 'exc' && !$thrown) return "op #$oi $sh needs the element whose source throws and gives " . show($r) . ', expected an exception'; if ($r[0] === 'ret' && in_array($o[0], ['count', 'ht', 'keys', 'values', 'pairs', 'json'])) return "op #$oi $sh after the source threw gives " . show($r) . ', expected an exception'; $thrown = true;
                    if ($r[0] === 'exc' && !in_array($r[1], ['DomainException', 'RuntimeException', 'OutOfBoundsException'])) return "op #$oi $sh: " . show($r);
                } elseif ($r[0] !== $want[0] || ($want[0] === 'ret' ? !same($r[1], $want[1]) : $r[1] !== $want[1])) return "op #$oi $sh gives " . show($r) . ', expected ' . show($want);
                unset($r, $want);
                if ($src) { if (count($src->seen) !== count(array_unique($src->seen))) return "a source element was consumed twice"; if ($fail === null && $src->max > max($got, min($n, $all)) - 1 && $form === 4) return "op #$oi $sh consumed element {$src->max} of the source although only $n are needed"; if ($fail === null) $got = max($got, min($n, $all)); }
                continue;
            }
            if ($fail !== null) { if ($o[0] !== 'new') $x = attempt(fn() => match ($o[0]) { 'ser' => serialize($s), 'export' => var_export($s, true), 'toArray' => $s->toArray(), 'json' => json_encode($s), default => null }); if (in_array($o[0], ['ser', 'export', 'toArray'])) $got = $fail; if ($x !== null && $x[0] === 'exc') $thrown = true; $x = null;
                for ($i = 0; $i < min($got, $fail); $i++) if (!same(attempt(fn() => $s->valueAt($i)), ['ret', $m[$i][1]])) return "element $i fetched before the exception is lost"; continue; }
            if ($o[0] !== 'new') $got = $all; // check() below reads everything
        }
        switch ($o[0]) {
            case 'new': if ($CACHED) continue 2; break;
            case 'push': $r = attempt(fn() => $s->push($o[1], $o[2])); if ($r !== ['ret', null]) return 'push: ' . show($r); $m[] = [$o[1], $o[2]]; break;
            case 'pop': $r = attempt(fn() => $s->pop()); if (!$m) { if ($r[0] !== 'exc' || $r[1] !== 'UnderflowException') return 'pop on empty: ' . show($r); } else { $e = array_pop($m); if ($r[0] !== 'ret' || !same($r[1], $e)) return 'pop gives ' . show($r) . ', expected ' . show($e); unset($e); } break;
            case 'setKeyAt': case 'setValueAt': $f = $o[0]; $r = attempt(fn() => $s->$f($o[1], $o[2])); if ($o[1] < 0 || $o[1] >= count($m)) { if ($r[0] !== 'exc' || $r[1] !== 'OutOfBoundsException') return "$f({$o[1]}): " . show($r); } else { if ($r !== ['ret', null]) return "$f: " . show($r); $m[$o[1]][$f === 'setKeyAt' ? 0 : 1] = $o[2]; } break;
            case 'setSize': $r = attempt(fn() => $s->setSize($o[1])); if ($o[1] < 0) { if ($r[0] !== 'exc') return 'setSize(-1) accepted'; } else { $m = array_slice($m, 0, $o[1]); while (count($m) < $o[1]) $m[] = [null, null]; } break;
            case 'clear': $r = attempt(fn() => $s->clear()); if ($MUT) $m = []; elseif ($r[0] !== 'exc') return 'clear accepted'; break;
            case 'shrink': $s->shrinkToFit(); if ($s->capacity() !== count($m)) return 'capacity after shrinkToFit is ' . $s->capacity(); break;
            case 'at': $r = attempt(fn() => [$s->keyAt($o[1]), $s->valueAt($o[1])]); if ($o[1] >= 0 && $o[1] < count($m) ? !same($r, ['ret', $m[$o[1]]]) : ($r[0] !== 'exc' || $r[1] !== 'OutOfBoundsException')) return 'keyAt/valueAt(' . show($o[1]) . '): ' . show($r); break;
            case 'look': case 'lookv': foreach ([$o[1], $o[2]] as $q) { if (is_float($q) && is_nan($q)) continue; $a = idx($m, 0, $q); $b = idx($m, 1, $q); if ($s->indexOfKey($q) !== $a || $s->containsKey($q) !== ($a !== null) || $s->indexOfValue($q) !== $b || $s->containsValue($q) !== ($b !== null) || $s->contains($q) !== ($b !== null)) return 'search of ' . show($q) . ' gives ' . show([$s->indexOfKey($q), $s->containsKey($q), $s->indexOfValue($q), $s->containsValue($q), $s->contains($q)]) . ', expected ' . show([$a, $b]); } unset($q); break;
            case 'iter2': $r = []; foreach ($s as $k => $v) { $r[] = [$k, $v]; if (count($r) === 2) foreach ($s as $k2 => $v2) { } } unset($k, $v, $k2, $v2); if (!same($r, $m)) return 'nested iteration'; break;
            case 'json': if (!same($s->jsonSerialize(), $m)) return 'jsonSerialize'; break;
            case 'toArray': $a = []; $ok = true; foreach ($m as [$k, $v]) { if (is_int($k) || is_string($k)) $a[$k] = $v; else $ok = false; } $r = attempt(fn() => $s->toArray()); if ($ok && !same($r, ['ret', $a])) return 'toArray() = ' . show($r) . ', expected ' . show($a); unset($a); break;
            case 'clone': if ($CACHED) { attempt(fn() => clone $s); break; } $c = clone $s; if ($x = check($c, $m)) return "clone: $x"; if ($MUT) { $keep = chance(50) ? [$c, $m] : [$s, $m]; if ($keep[0] === $s) $s = $c; } unset($c); break;
            case 'ser': $ok = true; foreach ($m as $p) foreach ($p as $q) if (is_object($q) && !$q instanceof UnitEnum) $ok = false; unset($p, $q); if (!$ok) break; $c = unserialize(serialize($s)); if (get_class($c) !== $CLS) return 'class lost'; if ($x = check($c, $m)) return "unserialize(serialize()): $x"; if (chance(50)) $s = $c; unset($c); break;
            case 'state': $c = $CLS::__set_state($m); if ($x = check($c, $m)) return "__set_state: $x"; if (chance(50)) $s = $c; unset($c); break;
            case 'frompairs': $c = $CLS::fromPairs($s->toPairs()); if ($x = check($c, $m)) return "fromPairs: $x"; if (!$CACHED) { $c = $CLS::fromPairs(new ArrayIterator($s->toPairs())); if ($x = check($c, $m)) return "fromPairs(Traversable): $x"; $r = attempt(fn() => $CLS::fromPairs(new Src(array_map(fn($p) => [0, $p], $m), mt_rand(0, count($m)), rnd(['rewind', 'next', 'valid', 'current'])))); } unset($c); break;
            case 'reconstruct': foreach ([fn() => $s->__construct([1, 2]), fn() => $s->__unserialize([1, 2])] as $f) { $r = attempt($f); if ($r[0] !== 'exc') return 'second construction accepted'; } unset($f); break;
            case 'badpairs': foreach ([[1], [[1]], [[1 => 2]], ['ab'], [[1, 2], 3], [[1, 2], [3]], [[0 => new Obj, 1 => 2], null]] as $bad) { foreach ($CACHED ? [0] : [0, 1] as $z) { $r = attempt(fn() => $CLS::fromPairs($z ? new ArrayIterator($bad) : $bad)); if ($r[0] !== 'exc') return 'fromPairs(' . show($bad) . ') accepted'; } $r = attempt(fn() => $CLS::__set_state($bad)); if ($r[0] !== 'exc') return '__set_state(' . show($bad) . ') accepted'; } unset($bad); break;
            case 'badser': foreach (['1:{i:0;i:5;}', '2:{i:0;a:1:{i:0;i:7;}s:1:"x";i:1;}', '3:{i:0;i:1;i:1;i:2;i:2;i:3;}', '2:{s:1:"a";i:1;s:1:"b";i:2;}'] as $bad) { $r = attempt(fn() => unserialize('O:' . strlen($CLS) . ':"' . $CLS . '":' . $bad)); if ($r[0] !== 'exc') return "malformed data $bad accepted"; } $c = unserialize('O:' . strlen($CLS) . ':"' . $CLS . '":0:{}'); if ($x = check($c, [])) return "unserialized empty: $x"; $c = unserialize('O:' . strlen($CLS) . ':"' . $CLS . '":4:{i:0;i:1;i:1;a:1:{i:0;i:3;}i:2;R:2;i:3;R:3;}'); if ($x = check($c, [[1, [3]], [1, [3]]])) return "unserialized references: $x"; unset($c); break;
            case 'export': ob_start(); var_dump($s); var_export($s); json_encode($s); ob_end_clean(); if (!same((array)$s, $m)) return '(array) cast = ' . show((array)$s); break;
            case 'throwctor': $n = count($o[1]); $w = rnd(['rewind', 'current', 'key', 'next', 'valid']); $at = $w === 'rewind' ? 0 : mt_rand(0, $n); $r = attempt(fn() => new $CLS(new Src($o[1], $at, $w))); if (!$CACHED) { $hits = $w === 'rewind' || $w === 'valid' || ($w === 'next' ? $at > 0 : $at < $n); if (($r[0] === 'exc') !== $hits) return "source throwing in $w at $at of $n: " . show($r); } break;
            case 'dyn': $r = attempt(function () use ($s) { $s->nosuch = 1; }); if ($r[0] !== 'exc') return 'dynamic property accepted'; break;
            case 'gc': gc_collect_cycles(); break;
        }
        unset($r, $e);
        if (!$CACHED || $o[0] !== 'new') if ($x = check($s, $m)) return "after op #$oi " . showop($o) . ": $x";
        if ($keep && ($x = check($keep[0], $keep[1]))) return "clone changed by op #$oi on the other copy: $x";
    }
    return null;
}
function showop(array $o): string { return $o[0] . '(' . implode(', ', array_map('show', array_slice($o, 1))) . ')'; }
function runleak(array $ops): ?string {
    mt_srand(crc32(implode('|', array_map('showop', $ops))) & 0xffff);
    $objs = []; foreach ($ops as $o) array_walk_recursive($o, function ($x) use (&$objs) { if (is_object($x)) $objs[spl_object_id($x)] = $x; });
    $rc = array_map('refcount', $objs); $alive = Obj::$alive; $e = run($ops); if ($e !== null) return $e; gc_collect_cycles();
    if (Obj::$alive !== $alive) return 'objects leaked or lost: ' . (Obj::$alive - $alive);
    foreach ($objs as $i => $x) if (refcount($x) !== $rc[$i]) return 'reference count of ' . show($x) . ' changed from ' . $rc[$i] . ' to ' . refcount($x);
    return null;
}
sequences($C, 2500, function ($i) { mt_srand($GLOBALS['SEED'] * 100003 + $i); return genops($i); }, 'runleak', 'showop');
if ($CACHED) { // re-entrance: the source reads the very CachedIterable that is fetching it
    foreach (['count', 'keys', 'values', 'toPairs', 'toArray', 'isEmpty', 'jsonSerialize', '__serialize', 'iterate', 'keyAt', 'valueAt', 'indexOfKey', 'indexOfValue', 'containsKey', 'contains', 'var_dump', 'cnt', 'ser', 'exp'] as $f) foreach ([0, 1, 2] as $at) foreach ([0, 1] as $catch) {
        logcase("CachedIterable whose generator calls $f on it before element $at, " . ($catch ? 'caught' : 'not caught')); $STATS['evaluations']++; $STATS['distinct']["$f$at$catch"] = 1;
        $c = null; $inner = [];
        $g = (function () use (&$c, $f, $at, $catch, &$inner) { for ($i = 0; $i < 3; $i++) { if ($i === $at && $c !== null) { $call = fn() => match ($f) { 'iterate' => iterator_to_array($c, false), 'keyAt', 'valueAt' => $c->$f(7), 'indexOfKey', 'containsKey', 'indexOfValue', 'contains' => $c->$f('no'), 'var_dump' => (function () use ($c) { ob_start(); var_dump($c); ob_end_clean(); })(), 'cnt' => count($c), 'ser' => serialize($c), 'exp' => var_export($c, true), default => $c->$f() }; if ($catch) $inner[] = attempt($call); else $call(); } yield $i => $i * 10; } })();
        $c = new $CLS($g); $r = attempt(fn() => $c->values()); if ($at > 0 && $r[0] === 'ret' && $r[1] !== [0, 10, 20] && $r[1] !== array_slice([0, 10, 20], 0, $at)) fail($C, "re-entrant $f at $at gives " . show($r));
        if ($catch && $r !== ['ret', [0, 10, 20]]) fail($C, "re-entrant $f at $at (caught by the source) gives " . show($r));
        unset($g, $c);
    }
    gc_collect_cycles();
}
leakcheck($C, function () { mt_srand(5); for ($i = 0; $i < 25; $i++) run(genops($i)); });
stats(); echo "DRVOK\n";
