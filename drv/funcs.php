<?php
// stable_compare / strict_hash / strict_equals (args: order) and the iterable helper functions (args: iter)
require __DIR__ . '/ref.php';
$MODE = $argv[1];
class ClsA {} class ClsB { public $x = 1; } class clsC extends ClsA {}
enum En { case X; case Y; }

function atoms(): array {
    static $objs; static $res; $objs ??= [new ClsA, new ClsB, new ClsA, new clsC, En::X, En::Y, fn() => 1]; $res ??= [fopen('php://memory', 'r'), fopen('php://memory', 'r')];
    $i = [0, 1, -1, 2, 3, 127, 128, 255, 256, -128, -129, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32), (1 << 53), (1 << 53) + 1, (1 << 53) - 1, -(1 << 53), -(1 << 53) - 1, -(1 << 53) + 1, (1 << 62), PHP_INT_MAX, PHP_INT_MAX - 1, PHP_INT_MAX - 512, PHP_INT_MIN, PHP_INT_MIN + 1, PHP_INT_MIN + 1024];
    $f = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -0.5, 2.0, 255.0, 256.0, 127.5, 2147483648.0, 4294967296.0, 9007199254740992.0, 9007199254740993.0, 9007199254740994.0, -9007199254740992.0, -9007199254740994.0, 4611686018427387904.0, 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 1e19, -1e19, 1e300, -1e300, INF, -INF, NAN, -NAN, PHP_FLOAT_EPSILON, PHP_FLOAT_MIN, 5e-324, -5e-324];
    $s = ['', '0', '1', '10', '9', 'a', 'A', 'ab', "a\0", "a\0b", "\xff", "é", '1.0', '0a', '1b', ' ', str_repeat('z', 100), str_repeat('z', 100) . 'a', "\0", 'false', 'null'];
    $a = [[], [1], [1.0], ['1'], [0], [null], [false], [NAN], [1, 2], [2, 1], [1 => 2, 0 => 1], ['a' => 1], ['b' => 1], ['a' => 1.0], ['a' => 1, 'b' => 2], ['b' => 2, 'a' => 1], [[]], [[1]], [[NAN]], [-0.0], [0.0], ['k' => [1, [2]]], [1, 2, 3], [PHP_INT_MAX => 1], [-1 => 1], ['aa' => 1], ['10a' => 1], [5 => 1, 'x' => 2]];
    return array_merge([null, false, true], $i, $f, $s, $a, $objs, $res);
}
function refarr($v) { $x = is_array($v) ? [] : null; if (is_array($v)) { $r = []; foreach ($v as $k => $e) { $t = $e; $r[$k] = &$t; unset($t); } return $r; } return $v; }
function copyval($v) { if (is_string($v) && $v !== '') { $c = substr($v, 0, 1) . substr($v, 1); return $c; } if (is_array($v)) { $o = []; foreach ($v as $k => $e) $o[is_string($k) ? substr($k, 0, 1) . substr($k, 1) : $k] = copyval($e); return $o; } return $v; }
function rv(int $d = 0) {
    if ($d < 2 && chance(20)) { $n = mt_rand(0, 4); $a = []; $str = chance(40); for ($i = 0; $i < $n; $i++) $a[$str ? rnd(['a', 'b', 'c', 'x1']) : (chance(80) ? $i : mt_rand(-2, 5))] = rv($d + 1); if (chance(20)) { $a[] = 1; array_pop($a); } return $a; }
    if (chance(15)) return mt_rand(-3, 3) + mt_rand(0, 1) * 0.5;
    if (chance(10)) { $b = rnd([1 << 53, 1 << 54, 1 << 62, PHP_INT_MAX - 2000]) + mt_rand(-3, 3); return rnd([$b, (float)$b, -$b, (float)-$b]); }
    return rnd(atoms());
}
function checkpair($a, $b): void {
    $GLOBALS['STATS']['ops']++;
    $c = Teds\stable_compare($a, $b); $d = Teds\stable_compare($b, $a);
    if (($c <=> 0) !== -($d <=> 0)) fail('stable_compare antisymmetry', "compare(" . show($a) . ", " . show($b) . ") = $c, reversed $d");
    $e = scmp($a, $b);
    if ($e !== null && ($c <=> 0) !== $e) fail('stable_compare', "compare(" . show($a) . ", " . show($b) . ") = $c, documented order gives $e");
    $q = seq($a, $b);
    if (($c === 0) !== $q) fail('stable_compare', "compare(" . show($a) . ", " . show($b) . ") = $c but strictly equal = " . show($q));
    if (Teds\strict_equals($a, $b) !== $q || Teds\strict_equals($b, $a) !== $q) fail('strict_equals', show($a) . ", " . show($b) . " expected " . show($q));
    if ($q && Teds\strict_hash($a) !== Teds\strict_hash($b)) fail('strict_hash', "equal values " . show($a) . ", " . show($b) . " hash differently");
}
if ($MODE === 'order') {
    $at = atoms();
    foreach ($at as $a) { foreach ($at as $b) checkpair($a, $b); $c = copyval($a); checkpair($a, $c); if (!seq($a, $c)) fail('driver', 'copyval'); $r = refarr($a); checkpair($r, $a); checkpair($a, $r);
        if (is_array($a)) { $GLOBALS['STATS']['distinct'][md5(show($a))] = 1; $h1 = Teds\strict_hash($a); if ($h1 !== Teds\strict_hash($a)) fail('strict_hash not stable', show($a)); } }
    $STATS['evaluations'] += count($at) ** 2;
    // all-value transitivity: sorting by the order must give a chain consistent with every pair
    for ($round = 0; $round < max(1, (int)(60 * $SCALE)); $round++) {
        $vals = []; for ($i = 0; $i < 60; $i++) { $vals[] = rv(); } if (chance(50)) $vals[] = copyval(rnd($vals));
        logcase('order: ' . implode(', ', array_map('show', $vals)));
        foreach ($vals as $a) foreach ($vals as $b) checkpair($a, $b);
        usort($vals, fn($x, $y) => Teds\stable_compare($x, $y));
        for ($i = 0; $i < count($vals); $i++) for ($j = $i + 1; $j < count($vals); $j++) if (Teds\stable_compare($vals[$i], $vals[$j]) > 0) fail('stable_compare transitivity', "sorted order violated for " . show($vals[$i]) . " and " . show($vals[$j]));
        $STATS['evaluations'] += 3600; $STATS['distinct'][md5(implode(array_map('show', $vals)))] = 1;
        if ($round < 2) $STATS['samples'][] = substr(implode(', ', array_map('show', $vals)), 0, 200);
    }
    // long strings, deep arrays, hash spread, cyclic arrays terminate
    $deep = 1; for ($i = 0; $i < 200; $i++) $deep = [$deep]; $deep2 = 1; for ($i = 0; $i < 200; $i++) $deep2 = [$deep2]; $deep3 = 2; for ($i = 0; $i < 200; $i++) $deep3 = [$deep3];
    if (Teds\stable_compare($deep, $deep2) !== 0 || Teds\strict_hash($deep) !== Teds\strict_hash($deep2) || Teds\stable_compare($deep, $deep3) >= 0 || Teds\strict_equals($deep, $deep3)) fail('deep arrays', '');
    $cyc = [1, 'a' => 2]; $cyc['self'] = &$cyc; $h = Teds\strict_hash($cyc); if ($h !== Teds\strict_hash($cyc)) fail('hash of cyclic array not stable', '');
    $in = ['p' => 3]; $cyc2 = ['x' => &$in, 'y' => 1]; $in['up'] = &$cyc2; Teds\strict_hash($cyc2); if (Teds\strict_hash($in) !== Teds\strict_hash($in)) fail('hash of cyclic array not stable', ''); unset($cyc, $in, $cyc2); gc_collect_cycles();
    $big = []; for ($i = 0; $i < 300; $i++) { $h = Teds\strict_hash($i); $big[$h] = 1; } if (count($big) < 300) fail('strict_hash', 'collides on small integers');
    foreach ([[1], ['a' => [1, 2]], 'str', 1.5, new ClsA] as $v) { $r = &$v; if (Teds\strict_hash($r) !== Teds\strict_hash($v)) fail('hash of a reference', ''); unset($r); }
    leakcheck('order', function () { foreach (atoms() as $a) { Teds\strict_hash($a); Teds\stable_compare($a, [1, [2, $a]]); Teds\strict_equals([$a], [$a]); } });
}

// ---------------------------------------------------------------- iterable functions
class Cb { public static array $seen = []; }
function sources(array $pairs): array {
    $vals = array_column($pairs, 1); $out = [];
    $arr = []; $uniq = true; foreach ($pairs as [$k, $v]) { if (!is_int($k) && !is_string($k)) { $uniq = false; break; } if (array_key_exists($k, $arr)) $uniq = false; $arr[$k] = $v; }
    if ($uniq) { $out['hash'] = $arr; $out['iter'] = new ArrayIterator($arr); }
    $out['packed'] = $vals;
    $h = []; $i = 0; foreach ($vals as $v) { $h[] = 'junk'; $h[] = $v; } foreach (array_keys($h) as $k) if ($k % 2 === 0) unset($h[$k]); $out['holes'] = $h;
    $h = $vals; foreach (['t1', 't2'] as $t) $h[] = $t; unset($h[count($vals)], $h[count($vals) + 1]); $out['tailholes'] = $h;
    $h = ['s' => 1]; foreach ($vals as $i => $v) $h["k$i"] = $v; unset($h['s']); $out['strkeys'] = $h;
    $rf = []; foreach ($vals as $i => $v) { $t = $v; $rf[$i] = &$t; unset($t); } $out['refs'] = $rf;
    $out['gen'] = (function () use ($pairs) { foreach ($pairs as [$k, $v]) yield $k => $v; })();
    $out['pairiter'] = new PairIter($pairs);
    $out['vector'] = new Teds\Vector($vals); $out['deque'] = new Teds\Deque($vals);
    return $out;
}
function expectcalls(string $what, array $exp): void { if (count(Cb::$seen) !== count($exp)) fail($what, 'callback calls: ' . show(Cb::$seen) . ' expected ' . show($exp)); foreach ($exp as $i => $v) if (!same(Cb::$seen[$i], $v)) fail($what, "callback argument $i: " . show(Cb::$seen[$i]) . ' expected ' . show($v)); }
if ($MODE === 'iter') {
    $truthy = fn($v) => (bool)$v;
    for ($round = 0; $round < max(1, (int)(150 * $SCALE)); $round++) {
        $n = rnd([0, 0, 1, 1, 2, 3, 5, 9, 17]); $pairs = []; $mode = mt_rand(0, 4);
        for ($i = 0; $i < $n; $i++) { $v = $mode === 0 ? rnd([0, '', null, false, '0', [], 0.0]) : ($mode === 1 ? rnd([1, 'a', true, 1.5, [0]]) : ($mode === 2 ? new Obj($i) : rv())); $pairs[] = [$mode === 3 ? rv() : ($mode === 4 ? "k$i" : $i), $v]; }
        $vals = array_column($pairs, 1);
        $GLOBALS['STATS']['distinct'][md5(show($pairs))] = 1; $STATS['evaluations']++; if ($round < 3) $STATS['samples'][] = substr(show($pairs), 0, 200);
        foreach (array_keys(sources($pairs)) as $kind) {
            $src = fn() => sources($pairs)[$kind]; $tag = "$kind " . substr(show($pairs), 0, 300); logcase("iter $tag");
            // no callback
            $any = false; foreach ($vals as $v) if ($v) $any = true; $all = true; foreach ($vals as $v) if (!$v) $all = false;
            foreach ([['any', $any], ['all', $all], ['none', !$any]] as [$f, $e]) { $g = ("Teds\\$f")($src()); if ($g !== $e) fail("Teds\\$f", "$tag gives " . show($g)); $STATS['ops']++; }
            // callbacks: predicate by position, with every kind of truthy/falsy result; throwing ones
            $hit = mt_rand(-1, max(0, $n)); $rt = rnd([true, 1, 'x', [1], 1.5, new Obj]); $rf = rnd([false, 0, '', null, [], 0.0, '0']);
            foreach (['any', 'all', 'none', 'find'] as $f) {
                $i = 0; Cb::$seen = []; $neg = $f === 'all';
                $cb = function ($v) use (&$i, $hit, $rt, $rf, $neg) { Cb::$seen[] = $v; return ($i++ === $hit) !== $neg ? $rt : $rf; };
                $found = $hit >= 0 && $hit < $n; $def = rnd([null, 'dflt', [3]]);
                $e = match ($f) { 'any' => $found, 'all' => !$found, 'none' => !$found, 'find' => $found ? $vals[$hit] : $def };
                $g = $f === 'find' ? Teds\find($src(), $cb, $def) : ("Teds\\$f")($src(), $cb);
                if (!same($g, $e)) fail("Teds\\$f with callback", "$tag hit=$hit gives " . show($g) . " expected " . show($e));
                expectcalls("Teds\\$f $tag", array_slice($vals, 0, $found ? $hit + 1 : $n)); Cb::$seen = [];
                $i = 0; $at = mt_rand(0, $n); $cb = function ($v) use (&$i, $at, $f) { if ($i++ === $at) throw new DomainException('cb'); return $f === 'all'; }; $r = attempt(fn() => ("Teds\\$f")($src(), $cb));
                if (($at < $n) !== ($r[0] === 'exc')) fail("Teds\\$f", "$tag exception of the callback at $at: " . show($r)); if ($r[0] === 'exc' && $i !== $at + 1) fail("Teds\\$f", "callback called again after throwing ($i calls, threw at $at)");
            }
            if (Teds\find($src(), fn($v) => false) !== null) fail('Teds\find', "$tag no match gives non-null");
            // fold
            $g = Teds\fold($src(), function ($c, $v) { $c[] = $v; return $c; }, ['i']); if (!same($g, array_merge(['i'], $vals))) fail('Teds\fold', "$tag gives " . show($g));
            $o = new Obj; $g = Teds\fold($src(), fn($c, $v) => $v, $o); if (!same($g, $n ? $vals[$n - 1] : $o)) fail('Teds\fold', "$tag last gives " . show($g)); unset($o, $g);
            $i = 0; $at = mt_rand(0, $n); $cb = function ($c, $v) use (&$i, $at) { if ($i++ === $at) throw new DomainException('cb'); return [$v]; }; $r = attempt(fn() => Teds\fold($src(), $cb, null)); if (($at < $n) !== ($r[0] === 'exc')) fail('Teds\fold', "$tag exception at $at lost");
            if ($r[0] === 'exc' && $i !== $at + 1) fail("Teds\\fold", "callback called again after throwing ($i calls, threw at $at)");
            // includes_value, unique_values
            for ($t = 0; $t < 3; $t++) { $x = $n && chance(60) ? copyval(rnd($vals)) : rv(); $e = false; foreach ($vals as $v) if ($v === $x) $e = true; $g = Teds\includes_value($src(), $x); if ($g !== $e) fail('Teds\includes_value', "$tag of " . show($x) . " gives " . show($g)); }
            $u = []; foreach ($vals as $v) { foreach ($u as $w) if (seq($v, $w)) continue 2; $u[] = $v; }
            $g = Teds\unique_values($src()); if (!array_is_list($g) || !same($g, $u)) fail('Teds\unique_values', "$tag gives " . show($g) . " expected " . show($u));
            if (is_array($src())) { $a = $src(); $f1 = Teds\array_value_first($a); $l1 = Teds\array_value_last($a); if (!same($f1, $n ? $vals[0] : null) || !same($l1, $n ? $vals[$n - 1] : null)) fail('Teds\array_value_first/last', "$tag gives " . show([$f1, $l1])); if (!Teds\is_same_array_handle($a, $a)) fail('is_same_array_handle', $tag); }
        }
        // throwing sources
        if ($n) { $at = mt_rand(0, $n); $mk = fn() => new ThrowingIter($vals, $at); $STATS['ops']++;
            foreach ([fn() => Teds\all($mk(), fn() => true), fn() => Teds\any($mk(), fn() => false), fn() => Teds\none($mk(), fn() => false), fn() => Teds\find($mk(), fn() => false), fn() => Teds\fold($mk(), fn($c, $v) => [$c, $v], 1), fn() => Teds\unique_values($mk()), fn() => Teds\includes_value($mk(), new stdClass)] as $j => $f) { $r = attempt($f); if ($r[0] !== 'exc' || $r[1] !== 'DomainException') fail("iterable function #$j", "exception of the source lost: " . show($r) . " throws at $at of $n"); } }
        unset($vals, $pairs, $src, $rt, $cb, $def, $a, $f1, $l1, $g, $x, $u, $v, $w, $e, $mk, $r, $f); Cb::$seen = [];
        if (Obj::$alive !== 0) { gc_collect_cycles(); if (Obj::$alive !== 0) fail('iterable functions', 'objects leaked: ' . Obj::$alive . " (mode $mode)"); }
    }
    // binary_search on sorted arrays of every layout
    for ($round = 0; $round < max(1, (int)(400 * $SCALE)); $round++) {
        $n = rnd([0, 1, 2, 3, 4, 7, 8, 20]); $base = []; for ($i = 0; $i < $n; $i++) $base[] = mt_rand(0, 30) * 2; sort($base); if (chance(50)) $base = array_values(array_unique($base));
        $str = chance(25); if ($str) { $base = array_map(fn($x) => sprintf('w%03d', $x), $base); }
        $lay = mt_rand(0, 4); $arr = [];
        if ($lay === 0) $arr = $base;
        elseif ($lay === 1) { foreach ($base as $v) { if (chance(40)) $arr[] = 'junk'; $arr[] = $v; } foreach ($arr as $k => $v) if ($v === 'junk') unset($arr[$k]); }
        elseif ($lay === 2) { foreach ($base as $i => $v) $arr["k$i"] = $v; }
        elseif ($lay === 3) { foreach ($base as $i => $v) { if (chance(30)) $arr["j$i"] = 'junk'; $arr["k$i"] = $v; } foreach ($arr as $k => $v) if ($v === 'junk') unset($arr[$k]); }
        else { $arr = $base; for ($j = 0; $j < 5; $j++) $arr[] = 'junk'; foreach ($arr as $k => $v) if ($v === 'junk') unset($arr[$k]); }
        $t = $str ? sprintf('w%03d', mt_rand(-1, 62) % 100) : mt_rand(-2, 62); $cmp = rnd([null, fn($a, $b) => $a <=> $b, fn($a, $b) => (string)(($a <=> $b) * 3)]);
        logcase("binary_search " . show($arr) . ' ' . show($t)); $STATS['evaluations']++; $STATS['distinct'][md5(show([$arr, $t]))] = 1;
        $r = Teds\binary_search($arr, $t, $cmp);
        checkbs($arr, $t, $r, false);
        // by key
        $keys = array_keys($arr); $ks = $keys; sort($ks); $sorted = []; foreach ($ks as $k) $sorted[$k] = $arr[$k];
        $kt = $keys && chance(60) ? rnd($keys) : ($keys && is_string($keys[0]) ? 'k' . mt_rand(0, 9) . 'x' : mt_rand(-2, 40));
        $r = Teds\binary_search($sorted, $kt, $cmp, true); checkbs($sorted, $kt, $r, true);
        $i = 0; if ($n) { $r = attempt(fn() => Teds\binary_search($arr, $t, function ($a, $b) { throw new DomainException('c'); })); if ($r[0] !== 'exc') fail('binary_search', 'exception of the comparer lost'); }
    }
    $o1 = [new Obj(1), new Obj(2), new Obj(3)]; $r = Teds\binary_search($o1, 2, fn($t, $o) => $t <=> $o->x); if (!$r['found'] || $r['value'] !== $o1[1] || $r['key'] !== 1) fail('binary_search', 'with objects'); $r = Teds\binary_search(['a' => $o1[0], 'b' => $o1[2]], 2, fn($t, $o) => $t <=> $o->x); if ($r['found'] || $r['key'] !== 'a') fail('binary_search', 'with objects'); unset($o1, $r); if (Obj::$alive) fail('binary_search', 'leaks objects');
    leakcheck('iterable functions', function () {
        $a = [str_repeat('a', mt_rand(3, 9)), [1, mt_rand(0, 9)], new stdClass]; $g = fn() => (function () use ($a) { foreach ($a as $v) yield $v; })(); $m = fn() => [str_repeat('r', mt_rand(2, 5)), $a];
        foreach ([$a, $g] as $s) { $src = fn() => is_array($s) ? $s : $s();
            foreach (['any', 'all', 'none', 'find'] as $f) { ("Teds\\$f")($src(), fn($v) => [str_repeat('q', mt_rand(2, 4))]); ("Teds\\$f")($src(), fn($v) => []); attempt(fn() => ("Teds\\$f")($src(), function ($v) { throw new DomainException(str_repeat('x', 5)); })); if ($f !== 'find') ("Teds\\$f")($src()); }
            Teds\fold($src(), fn($c, $v) => [$c, str_repeat('z', 3)], [str_repeat('i', 4)]); Teds\unique_values($src()); Teds\includes_value($src(), $a[2]); Teds\find($src(), fn($v) => false, [str_repeat('d', 3)]); }
        foreach (['any', 'all', 'none'] as $f) { attempt(fn() => ("Teds\\$f")(new ThrowingIter($a, 2), fn($v) => $f === 'all')); } attempt(fn() => Teds\find(new ThrowingIter($a, 2), fn($v) => false)); attempt(fn() => Teds\fold(new ThrowingIter($a, 2), fn($c, $v) => [$v], 1)); attempt(fn() => Teds\unique_values(new ThrowingIter($a, 2))); attempt(fn() => Teds\includes_value(new ThrowingIter($a, 2), 4));
        $s = ['aa' . mt_rand(0, 0), 'bb' . mt_rand(0, 0)]; $ks = ['ka' . mt_rand(0, 0) => $s[0], 'kb' . mt_rand(0, 0) => $s[1]]; foreach ([$s, $ks] as $q) foreach ([false, true] as $uk) foreach (['bb0', 'kb0', 'aaa', 'zz', '', 'kc'] as $t) { Teds\binary_search($q, $t, null, $uk); Teds\binary_search($q, $t, fn($x, $y) => strcmp((string)$x, (string)$y) . '', $uk); attempt(fn() => Teds\binary_search($q, $t, function ($x, $y) { throw new DomainException; }, $uk)); }
        Teds\array_value_first($a); Teds\array_value_last($a);
    });
}
function checkbs(array $arr, $t, $r, bool $key): void {
    $best = null; $found = false; foreach ($arr as $k => $v) { $x = $key ? $k : $v; if ($x == $t) { $found = true; } elseif (($x <=> $t) < 0) $best = [$k, $v]; }
    $tag = 'binary_search' . ($key ? ' by key' : ''); $d = show($arr) . ' target ' . show($t) . ' gives ' . show($r);
    if (array_keys($r) !== ['found', 'key', 'value'] && array_diff(['found', 'key', 'value'], array_keys($r))) fail($tag, $d);
    if ($r['found'] !== $found) fail($tag, $d);
    if ($found) { if (!array_key_exists($r['key'], $arr) || $arr[$r['key']] !== $r['value'] || (($key ? $r['key'] : $r['value']) != $t)) fail($tag, $d); }
    elseif ($best === null) { if ($r['key'] !== null || $r['value'] !== null) fail($tag, $d); }
    else { if ($r['value'] !== $best[1] || (!$key && $arr[$r['key']] !== $best[1]) || ($key && $r['key'] !== $best[0])) fail($tag, $d); }
}
stats(); echo "DRVOK\n";
