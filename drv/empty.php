<?php
// EmptySequence / EmptySet / EmptyMap: every method with every kind of argument, in random order; the collection stays empty.
require __DIR__ . '/lib.php';
$NEVER = ['EmptySequence' => ['get', 'set', 'insert', 'push', 'pop', 'pushFront', 'popFront', 'unshift', 'shift', 'first', 'last', 'current', 'key', 'offsetGet', 'offsetSet', 'offsetUnset'], 'EmptySet' => ['add', 'current', 'key'], 'EmptyMap' => ['current', 'key', 'offsetGet', 'offsetSet']];
$VOID = ['clear', 'next', 'rewind'];
function vals(): array { static $o; $o ??= new Obj(7); return [null, false, true, 0, 1, -1, PHP_INT_MIN, PHP_INT_MAX, 1.5, NAN, '', '0', 'x', [], [0], $o, fopen('php://memory', 'r')]; }
function check($e, string $c): ?string {
    $n = "Teds\\$c";
    if ($e !== $n::INSTANCE) return 'the instance changed';
    if ($e->count() !== 0 || count($e) !== 0 || $e->isEmpty() !== true) return 'count/isEmpty';
    if ($e->toArray() !== [] || $e->values() !== [] || $e->jsonSerialize() !== [] || ($c === 'EmptyMap' && $e->keys() !== [])) return 'toArray/values/keys/jsonSerialize not empty';
    if (json_encode($e) !== '[]') return 'json_encode gives ' . json_encode($e);
    if ($e->valid() !== false) return 'valid()';
    foreach ($e as $k => $v) return 'iteration yields ' . show($v);
    foreach (vals() as $v) {
        if ($e->contains($v) !== false) return 'contains(' . show($v) . ')';
        if ($c === 'EmptySequence' && ($e->indexOf($v) !== null)) return 'indexOf';
        if ($c === 'EmptySequence' && is_int($v) && ($e->containsKey($v) !== false || $e->offsetExists($v) !== false || isset($e[$v]) || !empty($e[$v]) || ($e[$v] ?? 'none') !== 'none')) return 'containsKey/offsetExists/isset ' . show($v);
        if ($c === 'EmptyMap' && ($e->containsKey($v) !== false || $e->offsetExists($v) !== false || isset($e[$v]) || !empty($e[$v]) || ($e[$v] ?? 'none') !== 'none')) return 'containsKey/offsetExists/isset ' . show($v);
    }
    return null;
}
function opshow(array $o): string { return "$o[0](" . implode(', ', array_map('show', $o[1])) . ')'; }
foreach (['EmptySequence', 'EmptySet', 'EmptyMap'] as $c) {
    $n = "Teds\\$c"; $methods = array_filter(get_class_methods($n), fn($m) => $m !== 'cases'); $methods = array_values($methods);
    $gen = function ($i) use ($methods) { mt_srand($GLOBALS['SEED'] * 7919 + $i); $ops = []; for ($j = mt_rand(1, 12); $j > 0; $j--) { $m = chance(20) ? rnd(['[]=', '[]', '[]&', 'unset', 'isset', 'clone', 'ser', 'foreach&', 'dyn', 'read[]', 'append', 'gc', 'iter', 'export', 'map', 'filter']) : rnd($methods); $a = []; for ($k = rnd([0, 0, 1, 1, 1, 2, 2, 3]); $k > 0; $k--) $a[] = chance(30) ? mt_rand(0, 2) : rnd(vals()); $ops[] = [$m, $a]; } return $ops; };
    $run = function (array $ops) use ($c, $n, $NEVER, $VOID) {
        $e = $n::INSTANCE;
        foreach ($ops as [$m, $a]) {
            $x = $a[0] ?? 3; $y = $a[1] ?? 4; $sh = opshow([$m, $a]);
            if (method_exists($n, $m) && !in_array($m, ['map', 'filter'])) {
                $r = attempt(fn() => $e->$m(...$a));
                if (in_array($m, $NEVER[$c]) ? $r[0] !== 'exc' : false) return "$sh returns " . show($r[1]) . ' although it is declared never to return or must throw';
                if ($r[0] === 'exc' && !in_array($m, $NEVER[$c]) && !in_array($r[1], ['ArgumentCountError', 'TypeError']) && !($m === 'get' && count($a) === 1) && $m !== '__construct') return "$sh throws " . show($r);
                if ($r[0] === 'ret') {
                    if (in_array($m, $VOID) && $r[1] !== null) return "$sh returns " . show($r[1]);
                    if ($m === 'get' && !same($r[1], $a[1] ?? null)) return "$sh returns " . show($r[1]);
                    if ($m === 'get' && count($a) < 2) return "$sh does not throw for a missing key";
                    if ($m === 'remove' && $r[1] !== false) return "$sh returns " . show($r[1]);
                }
                if (in_array($m, $NEVER[$c]) && !in_array($r[1], ['ArgumentCountError', 'TypeError', 'OutOfBoundsException', 'UnderflowException', 'Teds\UnsupportedOperationException'])) return "$sh throws " . show($r);
            } else {
                $aa = $c !== 'EmptySet';
                $r = attempt(function () use ($m, $e, $x, $y, $n, $aa) { switch ($m) {
                    case '[]=': $e[$x] = $y; return 'accepted'; case 'append': $e[] = $x; return 'accepted'; case '[]': return [$e[$x]]; case '[]&': $z = &$e[$x]; return 'accepted'; case 'read[]': $e[$x][] = 1; return 'accepted';
                    case 'unset': unset($e[$x]); return null; case 'isset': return isset($e[$x]) ? 'accepted' : null; case 'clone': return [clone $e]; case 'ser': return unserialize(serialize($e)) === $e ? null : 'accepted';
                    case 'foreach&': foreach ($e as &$v) return 'accepted'; return null; case 'dyn': $e->nosuch = 1; return 'accepted'; case 'gc': gc_collect_cycles(); return null;
                    case 'iter': $e->rewind(); $e->next(); return $e->valid() ? 'accepted' : null; case 'export': return var_export($e, true) === "\\$n::INSTANCE" ? null : 'accepted';
                    case 'map': return method_exists($n, 'map') && $e->map(fn() => 1) !== $e ? 'accepted' : null; case 'filter': return method_exists($n, 'filter') && ($e->filter(fn() => true) !== $e || $e->filter() !== $e) ? 'accepted' : null; } });
                if ($r[0] === 'ret' && $r[1] !== null) return "$sh gives " . show($r[1]);
                if ($r[0] === 'exc' && in_array($m, ['ser', 'gc', 'iter', 'export', 'map', 'filter'])) return "$sh throws " . show($r);
            }
            if ($err = check($e, $c)) return "after $sh: $err";
        }
        return null;
    };
    sequences($c, 2500, $gen, $run, 'opshow');
    foreach (vals() as $v) { if ($n::INSTANCE->count() !== 0) fail($c, 'count'); }
    leakcheck($c, function () use ($gen, $run) { for ($i = 0; $i < 20; $i++) $run($gen($i)); });
}
stats(); echo "DRVOK\n";
