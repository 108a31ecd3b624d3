<?php
require __DIR__ . '/lib.php';
// Reference list semantics shared by Vector, Deque, IntVector, LowMemoryVector, BitVector, ImmutableSequence.
$CLS = $argv[1]; $FULL = "Teds\\$CLS";
$KIND = ['IntVector' => 'int', 'BitVector' => 'bool'][$CLS] ?? 'mixed';
$IMM = $CLS === 'ImmutableSequence';
$has = fn($m) => method_exists($GLOBALS['FULL'], $m);
$OBJS = []; 

class ModelExc extends Exception { public function __construct(public string $cls) { parent::__construct($cls); } }
function mthrow(string $c) { throw new ModelExc($c); }

class It { public $p = 0; public bool $fresh = true; public bool $dead = false; }   // an InternalIterator rewinds on its first use
class Model {
    public array $a = []; public array $its = [];
    public function __construct(public string $kind) {}
    static function val($kind, $v) {
        if ($kind === 'int' && !is_int($v)) mthrow('TypeError');
        if ($kind === 'bool' && !is_bool($v)) mthrow('TypeError');
        return $v;
    }
    function vals(array $vs) { foreach ($vs as $v) self::val($this->kind, $v); return $vs; }
    static function off($o): int {
        if (is_int($o)) return $o;
        if (is_bool($o)) return (int)$o;
        if (is_float($o)) return is_finite($o) ? (int)$o : 0;
        if (is_string($o)) { $k = array_key_first([$o => 1]); if (is_int($k)) return $k; }
        mthrow('TypeError');
    }
    function in(int $i) { if ($i < 0 || $i >= count($this->a)) mthrow('OutOfBoundsException'); }
    function ins(int $at, array $vs) {
        $n = count($vs); $old = count($this->a);
        foreach ($this->its as $it) { if ($it->p < 0 || $it->p >= $old) $it->dead = true; elseif ($it->p >= $at) $it->p += $n; }
        array_splice($this->a, $at, 0, $vs);   // values are never arrays-of-args here (wrapped list)
    }
    function del(int $at) {
        $old = count($this->a);
        foreach ($this->its as $it) if ($it->p >= $at && $it->p >= 0 && $it->p < $old) $it->p--;
        $v = $this->a[$at]; array_splice($this->a, $at, 1); return $v;
    }
}
$BITINV = false;
if ($CLS === 'BitVector' && (new Teds\BitVector([true]))->indexOf(true) === null) { $BITINV = true; echo "DRVKNOWN bitvector-indexof-inverted\n"; }
enum Ref { case A; case B; }   // placeholder for a tracked object, replaced per run
function pool(): array {
    global $KIND, $OBJS;
    if ($KIND === 'bool') return [true, false];
    $ints = [0, 1, -1, 2, 7, 127, -128, 128, -129, 255, 32767, -32768, 32768, -32769, 65536, 2147483647, -2147483648, 2147483648, -2147483649, PHP_INT_MAX, PHP_INT_MIN];
    if ($KIND === 'int') return $ints;
    return array_merge($ints, [null, true, false, 1.0, 0.0, -0.0, 2.5, NAN, INF, '', '1', 'a', str_repeat('xy', 40), [], [1], ['k' => [2]], Ref::A, Ref::B]);
}
// value profile for one sequence: keeps LowMemoryVector/IntVector in one storage class, sometimes crossing
function profile(): array {
    global $KIND;
    $p = pool();
    if ($KIND === 'bool') return $p;
    $i8 = [0, 1, -1, 7, 127, -128]; $i16 = [128, -129, 300, -32768, 32767, 5]; $i32 = [32768, -32769, 1 << 30, -2147483648, 2147483647, 3]; $i64 = [1 << 40, PHP_INT_MIN, PHP_INT_MAX, 2147483648, -2147483649, 4];
    $c = mt_rand(0, $KIND === 'int' ? 6 : 11);
    switch ($c) {
        case 0: return $i8; case 1: return $i16; case 2: return $i32; case 3: return $i64;
        case 4: return array_merge($i8, $i16); case 5: return array_merge($i8, $i32, $i64); case 6: return array_merge($i8, $i16, $i32, $i64);
        case 7: return [true, false]; case 8: return [null, true, false]; case 9: return [1.0, 0.0, -0.0, 2.5, NAN, INF, -1e300]; case 10: return [1.5, 0.0, 3, 4, null];
        default: return $p;
    }
}
function badval(): array { global $KIND; return $KIND === 'int' ? ['1', 1.5, null, true, [], 'x'] : ($KIND === 'bool' ? [1, 0, null, 'x', []] : []); }

function genops(int $len): array {
    global $KIND, $IMM, $has, $CLS;
    $prof = profile(); $big = chance(4);
    $ops = []; 
    $n0 = $big ? mt_rand(20, 300) : mt_rand(0, 9);
    $vals = []; for ($i = 0; $i < $n0; $i++) $vals[] = rnd($prof);
    $ops[] = ['new', $vals, mt_rand(0, 3)];
    $v = function () use (&$prof) { if (chance(4)) return rnd(pool()); $b = badval(); if ($b && chance(2)) return rnd($b); return rnd($prof); };
    $off = function () { $r = mt_rand(1, 100); if ($r <= 80) return ['rel', mt_rand(0, 1 << 20)]; if ($r <= 90) return ['end', mt_rand(-1, 1)]; return ['abs', rnd([-1, -2, PHP_INT_MIN, PHP_INT_MAX, 4294967296, 4294967295, 1 << 31, 17])]; };
    for ($i = 0; $i < $len; $i++) {
        if ($KIND !== 'bool' && chance(3)) $prof = profile();
        $k = mt_rand(1, 100);
        $args = []; $m = $big && chance(10) ? mt_rand(0, 40) : rnd([0, 1, 1, 1, 2, 3, 5]); for ($j = 0; $j < $m; $j++) $args[] = $v();
        if ($k <= 12) $ops[] = ['push', $args];
        elseif ($k <= 20) $ops[] = ['pushFront', $args, rnd(['pushFront', 'unshift'])];
        elseif ($k <= 28) $ops[] = ['pop'];
        elseif ($k <= 36) $ops[] = ['popFront', rnd(['popFront', 'shift'])];
        elseif ($k <= 44) $ops[] = ['insert', $off(), $args];
        elseif ($k <= 50) $ops[] = ['set', $off(), $v(), mt_rand(0, 2)];
        elseif ($k <= 55) $ops[] = ['get', $off(), mt_rand(0, 2)];
        elseif ($k <= 58) $ops[] = ['append', $v(), mt_rand(0, 1)];
        elseif ($k <= 63) $ops[] = ['unset', $off(), mt_rand(0, 1)];
        elseif ($k <= 66) $ops[] = ['has', $off(), mt_rand(0, 3)];
        elseif ($k <= 69) $ops[] = ['find', $v()];
        elseif ($k <= 71) $ops[] = ['ends'];
        elseif ($k <= 72) $ops[] = ['clear'];
        elseif ($k <= 75) { $ops[] = ['setSize', $KIND === 'mixed' && chance(3) ? -1 : rnd([0, 1, 2, 3, 5, 8, 9, 17, 33, 64, 65, 130]), $v(), mt_rand(0, 1)]; }
        elseif ($k <= 78) $ops[] = ['cap', mt_rand(0, 2), rnd([0, 1, 4, 10, 100, -1])];
        elseif ($k <= 81) $ops[] = ['dup', mt_rand(0, 4)];
        elseif ($k <= 84) $ops[] = ['mapfilter', mt_rand(0, 5)];
        elseif ($k <= 88) $ops[] = ['it', 'new'];
        elseif ($k <= 95) $ops[] = ['it', rnd(['next', 'next', 'next', 'cur', 'rewind', 'drop'])];
        elseif ($k <= 98) $ops[] = ['oddoff', rnd(['0', '1', '-1', '01', 'x', '', 1.7, -0.5, true, false, null, NAN, 1e30, [], '9223372036854775808']), mt_rand(0, 3)];
        else $ops[] = ['gc', mt_rand(0, 1)];
    }
    return $ops;
}
function resolve($o, int $n): int { if ($o[0] === 'rel') return $n ? $o[1] % $n : 0; if ($o[0] === 'end') return $n + $o[1]; return $o[1]; }

function check_all($s, Model $m, string $where): ?string {
    global $FULL, $CLS;
    $arr = $s->toArray();
    if (!same($arr, $m->a)) return "$where: contents " . show($arr) . " expected " . show($m->a);
    if (!array_is_list($arr)) return "$where: toArray is not a list";
    if (count($s) !== count($m->a) || $s->count() !== count($m->a)) return "$where: count() = " . count($s) . " expected " . count($m->a);
    if ($s->isEmpty() !== (count($m->a) === 0)) return "$where: isEmpty wrong";
    if (method_exists($s, 'capacity') && $s->capacity() < count($m->a)) return "$where: capacity() < count()";
    return null;
}
function deep_check($s, Model $m): ?string {
    global $FULL, $CLS;
    $out = []; foreach ($s as $k => $v) { if ($k !== count($out)) return "foreach key " . show($k); $out[] = $v; if (count($out) > count($m->a) + 5) break; }
    if (!same($out, $m->a)) return "foreach yields " . show($out) . " expected " . show($m->a);
    if (!same($s->values(), $m->a)) return "values() wrong";
    $u = unserialize(serialize($s));
    if (!($u instanceof $FULL) || !samecopy($u->toArray(), $m->a)) return "unserialize(serialize(x)) = " . show($u instanceof $FULL ? $u->toArray() : $u) . " expected " . show($m->a);
    $e = null; 
    $z = $FULL::__set_state($m->a); if (!same($z->toArray(), $m->a)) return "__set_state gives " . show($z->toArray());
    if (!same((array)$s, $m->a)) return "(array) cast gives " . show((array)$s);
    if (!hasobj($m->a) && !in_array($CLS, ['IntVector', 'BitVector', 'LowMemoryVector'])) { eval('$e = ' . var_export($s, true) . ';'); if (!same($e->toArray(), $m->a)) return "var_export round trip gives " . show($e->toArray()) . " expected " . show($m->a); }
    if (!same($s->jsonSerialize(), $m->a)) return "jsonSerialize wrong";
    $c = clone $s; if (!same($c->toArray(), $m->a)) return "clone differs";
    for ($i = 0; $i < count($m->a); $i++) { $g = $s->get($i); if (!same($g, $m->a[$i])) return "get($i) = " . show($g) . " expected " . show($m->a[$i]); if (!same($s[$i], $m->a[$i])) return "[$i] wrong"; }
    if (method_exists($s, 'serialize')) { $b = $FULL::unserialize($s->serialize()); if (!same($b->toArray(), $m->a)) return "unserialize(serialize()) binary round trip wrong"; }
    ob_start(); var_dump($s); $d = ob_get_clean(); 
    return null;
}
function hasobj(array $a): bool { foreach ($a as $x) if (is_object($x) || (is_array($x) && hasobj($x))) return true; return false; }
function samecopy($a, $b): bool { if (is_array($a) && is_array($b)) { if (array_keys($a) !== array_keys($b)) return false; foreach ($a as $k => $v) if (!samecopy($v, $b[$k])) return false; return true; } if (is_object($a) && is_object($b)) return get_class($a) === get_class($b); return same($a, $b); }

function run(array $ops): ?string {
    global $FULL, $CLS, $KIND, $IMM, $OBJS, $has;
    $OBJS = []; $b0 = Obj::$alive; $OBJS = [new Obj, new Obj]; $base = $b0 + 2;
    $remap = function ($v) use (&$remap) { if ($v === Ref::A) return $GLOBALS['OBJS'][0]; if ($v === Ref::B) return $GLOBALS['OBJS'][1]; if (is_array($v)) return array_map($remap, $v); return $v; };
    $rops = array_map($remap, $ops); $r = run1($rops); unset($rops, $remap);
    if ($r === null) { if (Obj::$alive > $base) gc_collect_cycles(); }
    foreach ($OBJS as $k => $o) { static $rc0 = null; $rc0 ??= (function () { $x = [new Obj]; foreach ($x as $k => $o) { $r = refcount($o); } Obj::$alive += 0; return $r; })(); if ($r === null && ($rc = refcount($o)) !== $rc0) { gc_collect_cycles(); $rc = refcount($o); if ($rc !== $rc0) return "reference count of object $k is off by " . ($rc - $rc0) . " after everything else was released"; } } unset($o);
    if ($r === null && Obj::$alive !== $base) return "object count after freeing everything: " . Obj::$alive . " expected $base";
    return $r;
}
function run1(array $ops): ?string {
    global $FULL, $CLS, $KIND, $IMM, $has;
    $m = new Model($KIND); $s = null; $its = [];
    $stepno = 0;
    foreach ($ops as $op) {
        $stepno++;
        if ($s === null && $op[0] !== 'new') { $s = new $FULL([]); }
        $expect = null; $got = null; $n = count($m->a);
        $mut = in_array($op[0], ['push', 'pushFront', 'pop', 'popFront', 'insert', 'set', 'append', 'unset', 'setSize', 'clear']);
        $model = function (callable $f) { try { return ['ret', $f()]; } catch (ModelExc $e) { return ['exc', $e->cls]; } };
        switch ($op[0]) {
            case 'new':
                if ($s !== null) break;
                $vals = $op[1];
                $src = $op[2] === 0 ? $vals : ($op[2] === 1 ? new ArrayIterator($vals) : ($op[2] === 2 ? (function () use ($vals) { foreach ($vals as $v) yield 'k' => $v; })() : array_combine(array_map(fn($i) => "k$i", array_keys($vals)), $vals)));
                $expect = $model(function () use ($m, $vals) { $m->a = $m->vals($vals); return null; });
                $got = attempt(function () use (&$s, $src, $FULL) { $s = new $FULL($src); return null; });
                if ($expect[0] === 'exc') $s = new $FULL([]);
                break;
            case 'push': $args = $op[1];
                if ($IMM) { $got = attempt(fn() => $s->push(...$args)); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $expect = $model(function () use ($m, $args) { foreach ($args as $v) { Model::val($m->kind, $v); $m->a[] = $v; } return null; });
                $got = attempt(fn() => $s->push(...$args)); break;
            case 'pushFront': $args = $op[1]; $f = $op[2];
                if ($IMM) { $got = attempt(fn() => $s->$f(...$args)); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $expect = $model(function () use ($m, $args) { $m->vals($args); $m->ins(0, array_reverse($args)); return null; });
                if ($expect[0] === 'exc') { $expect = null; break; }   // partial effects of a rejected batch are not specified
                $got = attempt(fn() => $s->$f(...$args)); break;
            case 'pop': if ($IMM) { $got = attempt(fn() => $s->pop()); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $expect = $model(function () use ($m) { if (!$m->a) mthrow('UnderflowException'); return $m->del(count($m->a) - 1); });
                $got = attempt(fn() => $s->pop()); break;
            case 'popFront': $f = $op[1];
                if ($IMM) { $got = attempt(fn() => $s->$f()); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $expect = $model(function () use ($m) { if (!$m->a) mthrow('UnderflowException'); return $m->del(0); });
                $got = attempt(fn() => $s->$f()); break;
            case 'insert': $o = resolve($op[1], $n); $args = $op[2];
                if ($IMM) { $got = attempt(fn() => $s->insert($o, ...$args)); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $expect = $model(function () use ($m, $args, $o) { if ($o < 0 || $o > count($m->a)) mthrow('OutOfBoundsException'); $m->vals($args); $m->ins($o, $args); return null; });
                if ($expect[0] === 'exc' && $expect[1] === 'TypeError') { $expect = null; break; }
                $got = attempt(fn() => $s->insert($o, ...$args)); break;
            case 'set': $o = resolve($op[1], $n); $v = $op[2]; $how = $op[3];
                $expect = $IMM ? ['exc', 'Teds\UnsupportedOperationException'] : $model(function () use ($m, $o, $v) { if (!is_array($v) || 1) Model::val($m->kind, $v); $m->in($o); $m->a[$o] = $v; return null; });
                if ($how && $CLS === 'Deque' && $expect[0] === 'exc' && $expect[1] === 'OutOfBoundsException') $expect[1] = 'RuntimeException';
                $got = attempt(function () use ($s, $o, $v, $how) { if ($how === 0) $s->set($o, $v); elseif ($how === 1) $s->offsetSet($o, $v); else $s[$o] = $v; return null; });
                if ($expect[0] === 'exc' && $got[0] === 'exc' && $KIND !== 'mixed') $expect[1] = $got[1] === 'TypeError' || is_a($got[1], 'OutOfBoundsException', true) ? $got[1] : $expect[1];
                break;
            case 'get': $o = resolve($op[1], $n); $how = $op[2];
                $expect = $model(function () use ($m, $o) { $m->in($o); return $m->a[$o]; });
                $got = attempt(fn() => $how === 0 ? $s->get($o) : ($how === 1 ? $s->offsetGet($o) : $s[$o])); break;
            case 'append': $v = $op[1];
                $expect = $IMM ? ['exc', 'Teds\UnsupportedOperationException'] : $model(function () use ($m, $v) { $m->a[] = Model::val($m->kind, $v); return null; });
                $got = attempt(function () use ($s, $v) { $s[] = $v; return null; }); break;
            case 'unset': $o = resolve($op[1], $n);
                $expect = $IMM ? ['exc', 'Teds\UnsupportedOperationException'] : $model(function () use ($m, $o) { $m->in($o); $m->del($o); return null; });
                $how = $op[2]; $got = attempt(function () use ($s, $o, $how) { if ($how) $s->offsetUnset($o); else unset($s[$o]); return null; }); break;
            case 'has': $o = resolve($op[1], $n); $in = $o >= 0 && $o < $n; $val = $in ? $m->a[$o] : null;
                $expect = ['ret', match ($op[2]) { 0 => $in && $val !== null, 1 => $in, 2 => $in && $val !== null, 3 => !($in && (bool)$val) }];
                $got = attempt(fn() => match ($op[2]) { 0 => $s->offsetExists($o), 1 => $s->containsKey($o), 2 => isset($s[$o]), 3 => empty($s[$o]) });
                if ($op[2] === 0 && $in && $val === null) { $expect = null; }   // offsetExists of null: class-specific
                break;
            case 'find': $v = $op[1];
                $w = ($GLOBALS['BITINV'] && is_bool($v)) ? !$v : $v;   // known finding, see KNOWN_FINDINGS.md
                $idx = null; foreach ($m->a as $i => $x) if ($x === $w) { $idx = $i; break; }
                if (($KIND === 'int' && !is_int($v)) || ($KIND === 'bool' && !is_bool($v))) { $expect = ['ret', false]; $got = attempt(fn() => $s->contains($v)); break; }
                $expect = ['ret', [$idx, $idx !== null]]; $got = attempt(fn() => [$s->indexOf($v), $s->contains($v)]); break;
            case 'ends':
                $expect = $n ? ['ret', [$m->a[0], $m->a[$n - 1]]] : ['exc', 'UnderflowException'];
                $got = attempt(fn() => [$s->first(), $s->last()]); break;
            case 'clear':
                if ($IMM) { $got = attempt(fn() => $s->clear()); $expect = ['exc', 'Teds\UnsupportedOperationException']; break; }
                $m->a = []; $expect = ['ret', null]; $got = attempt(fn() => $s->clear()); break;
            case 'setSize':
                if (!$has('setSize')) break; [$_, $sz, $v, $wd] = $op;
                if ($KIND === 'bool' && !is_bool($v)) $v = true;
                $expect = $model(function () use ($m, $sz, $v, $wd, $KIND) { if ($sz < 0) mthrow('ValueError'); $fill = $wd ? $v : ($KIND === 'bool' ? false : null);
                    while (count($m->a) > $sz) array_pop($m->a); while (count($m->a) < $sz) $m->a[] = $fill; return null; });
                $got = attempt(fn() => $wd ? $s->setSize($sz, $v) : $s->setSize($sz)); break;
            case 'cap':
                if ($op[1] === 0 && $has('reserve')) { if ($op[2] < 0) break; $got = attempt(fn() => $s->reserve($op[2])); $expect = ['ret', null]; if ($got[0] === 'ret' && $s->capacity() < $op[2]) return "step $stepno reserve({$op[2]}): capacity " . $s->capacity(); }
                elseif ($op[1] === 1 && $has('shrinkToFit')) { $got = attempt(fn() => $s->shrinkToFit()); $expect = ['ret', null]; if ($s->capacity() !== count($m->a)) return "step $stepno shrinkToFit: capacity " . $s->capacity(); }
                break;
            case 'dup':
                $old = $s; $c = clone $s; $cm = clone $m; $cm->its = [];
                if (!$IMM && $op[1] > 0) { // mutate one copy, the other must not change; continue with the copy
                    $probe = $KIND === 'bool' ? true : 77;
                    if ($op[1] === 1) { $s->push($probe); if (!same($c->toArray(), $cm->a)) return "step $stepno: mutating the original changed the clone"; $s->pop(); if (!same($s->toArray(), $m->a)) return "step $stepno: push+pop changed contents"; foreach ($m->its as $it) { /* end iterators may move */ } $its = []; $m->its = []; }
                    elseif ($op[1] === 2) { $c->push($probe); $c->push($probe); $c->pushFront($probe); if (!same($s->toArray(), $m->a)) return "step $stepno: mutating the clone changed the original"; $ex = array_merge([$probe], $cm->a, [$probe, $probe]); if (!same($c->toArray(), $ex)) return "step $stepno: push on clone gives " . show($c->toArray()); }
                    else { $s = $c; $m = $cm; $its = []; if ($e = check_all($old, $m, "step $stepno original after clone")) return $e; unset($old); }
                }
                unset($c); break;
            case 'mapfilter':
                if (!$has('map')) break;
                switch ($op[1]) {
                    case 0: $r = $s->map(fn($x) => [$x]); $ex = array_map(fn($x) => [$x], $m->a); break;
                    case 1: $i = 0; $r = $s->filter(function ($x) use (&$i) { return $i++ % 2; }); $ex = []; foreach ($m->a as $j => $x) if ($j % 2) $ex[] = $x; break;
                    case 2: $r = $s->filter(); $ex = array_values(array_filter($m->a)); break;
                    case 3: $r = $s->filter(fn($x) => true); $ex = $m->a; break;
                    case 4: $i = 0; $g = attempt(function () use ($s, &$i) { return $s->map(function ($x) use (&$i) { if ($i++ === 2) throw new DomainException; return [$x, new Obj]; }); }); if ((count($m->a) > 2) !== ($g[0] === 'exc')) return "step $stepno map exception lost"; if ($g[0] === 'exc') { $r = null; } else { $r = null; } unset($g); break;
                    default: $i = 0; $g = attempt(function () use ($s, &$i) { return $s->filter(function ($x) use (&$i) { if ($i++ === 3) throw new DomainException; return true; }); }); if ((count($m->a) > 3) !== ($g[0] === 'exc')) return "step $stepno filter exception lost"; $r = null; unset($g);
                }
                if ($r !== null) { if (!($r instanceof $FULL) || !same($r->toArray(), $ex)) return "step $stepno mapfilter#{$op[1]}: " . show($r->toArray()) . " expected " . show($ex); }
                unset($r); break;
            case 'it':
                if ($op[1] === 'new') { $it = new It; $its[] = [$s->getIterator(), $it]; $m->its[] = $it; break; }
                if (!$its) break; $j = array_key_last($its); [$si, $it] = $its[$j]; if ($it->fresh && $op[1] !== 'drop') { $it->fresh = false; $it->p = 0; $it->dead = false; }
                if ($op[1] === 'next') { $si->next(); $it->p++; }
                elseif ($op[1] === 'rewind') { if ($it->p === 0) { $si->rewind(); } else { attempt(fn() => $si->rewind()); $it->p = 0; } $it->dead = false; }
                elseif ($op[1] === 'drop') { unset($its[$j]); unset($m->its[array_search($it, $m->its, true)]); unset($si); break; }
                if ($it->dead) break;   // where an exhausted iterator stands after an insertion is not specified
                $valid = $it->p >= 0 && $it->p < count($m->a);
                if ($si->valid() !== $valid) return "step $stepno iterator valid() = " . show($si->valid()) . " at position {$it->p} of " . count($m->a);
                if ($valid) { if (!same($si->current(), $m->a[$it->p])) return "step $stepno iterator current() = " . show($si->current()) . " expected " . show($m->a[$it->p]); if ($si->key() !== $it->p) return "step $stepno iterator key() = " . show($si->key()) . " expected {$it->p}"; }
                unset($si);
                break;
            case 'oddoff': $o = $op[1];
                if ($op[2] <= 1) {
                    $expect = $model(function () use ($m, $o) { $i = Model::off($o); $m->in($i); return $m->a[$i]; });
                    $got = attempt(fn() => $op[2] ? $s->offsetGet($o) : $s[$o]);
                } else {
                    $expect = $model(function () use ($m, $o) { $i = Model::off($o); return $i >= 0 && $i < count($m->a) && $m->a[$i] !== null; });
                    $got = attempt(fn() => $op[2] === 2 ? isset($s[$o]) : $s->offsetExists($o));
                    if ($op[2] === 3 && $expect[0] === 'ret' && $got[0] === 'ret' && !$expect[1]) { $i = Model::off($o); if ($i >= 0 && $i < $n) $expect = null; }
                }
                break;
            case 'gc': gc_collect_cycles(); break;
        }
        if ($expect !== null && $got !== null) {
            $ok = $expect[0] === $got[0] && ($expect[0] === 'ret' ? same($got[1], $expect[1]) : is_a($got[1], $expect[1], true));
            if (!$ok) return "step $stepno {$op[0]}: got " . showres($got) . " expected " . showres($expect);
        }
        $got = null;
        if ($mut || $op[0] === 'new' || $op[0] === 'dup') if ($e = check_all($s, $m, "after step $stepno {$op[0]}")) return $e;
    }
    if ($s === null) return null;
    if ($e = check_all($s, $m, 'end')) return $e;
    if (chance(30) || count($ops) < 4) if ($e = deep_check($s, $m)) return $e;
    return null;
}
function showres(array $r): string { return $r[0] === 'ret' ? 'return ' . show($r[1]) : 'exception ' . $r[1] . (isset($r[2]) ? " ({$r[2]})" : ''); }
function showop(array $op): string { return $op[0] . '(' . implode(', ', array_map('show', array_slice($op, 1))) . ')'; }

sequences("$CLS ops", 2500, fn($i) => genops($i < 400 ? mt_rand(1, 6) : mt_rand(5, 60)), 'run', 'showop');

// foreach with modification during the loop
for ($i = 0; $i < 300 * $SCALE && !$IMM; $i++) {
    mt_srand($SEED * 1000 + $i);
    $m = new Model($KIND); $vals = []; $n = mt_rand(0, 8); for ($j = 0; $j < $n; $j++) $vals[] = $KIND === 'bool' ? (bool)mt_rand(0, 1) : $j;
    $m->a = $vals; $s = new $FULL($vals); $trace = ["new " . show($vals)];
    $it = new It; $m->its[] = $it; $steps = 0; $next = 100;
    foreach ($s as $k => $v) {
        if ($it->p < 0 || $it->p >= count($m->a)) fail("$CLS foreach-modify", "foreach yielded " . show($v) . " past the end", $trace);
        if ($k !== $it->p || !same($v, $m->a[$it->p])) fail("$CLS foreach-modify", "foreach yielded " . show($k) . '=>' . show($v) . " expected {$it->p}=>" . show($m->a[$it->p]), $trace);
        $trace[] = "visit " . show($v);
        if (++$steps > 40) break;
        for ($q = mt_rand(0, 2); $q > 0; $q--) {
            $x = $KIND === 'bool' ? (bool)mt_rand(0, 1) : $next++;
            switch (mt_rand(0, 5)) {
                case 0: if ($m->a) { $s->popFront(); $m->del(0); $trace[] = 'popFront'; } break;
                case 1: if ($m->a) { $s->pop(); $m->del(count($m->a) - 1); $trace[] = 'pop'; } break;
                case 2: if ($steps < 15) { $s->pushFront($x); $m->ins(0, [$x]); $trace[] = 'pushFront ' . show($x); } break;
                case 3: if ($steps < 15) { $s->push($x); $m->a[] = $x; $trace[] = 'push ' . show($x); } break;
                case 4: if ($m->a) { $o = mt_rand(0, count($m->a) - 1); unset($s[$o]); $m->del($o); $trace[] = "unset $o"; } break;
                case 5: if ($steps < 15) { $o = mt_rand(0, count($m->a)); $s->insert($o, $x); $m->ins($o, [$x]); $trace[] = "insert $o " . show($x); } break;
            }
        }
        if ($it->dead) break;
        $it->p++;
    }
    if ($steps <= 40 && !$it->dead && $it->p >= 0 && $it->p < count($m->a)) fail("$CLS foreach-modify", "foreach stopped early at {$it->p} of " . count($m->a), $trace);
    $STATS['evaluations']++; $STATS['distinct'][md5(implode(';', $trace))] = 1;
}
// a traversable that fails midway: the exception surfaces, nothing leaks
for ($at = 0; $at <= 6; $at++) {
    $vals = $KIND === 'bool' ? [true, false, true, true, false] : [1, 2, 3, 400, 5];
    $r = attempt(fn() => new $FULL(new ThrowingIter($vals, $at)));
    if (($at <= 5) !== ($r[0] === 'exc')) fail("$CLS throwing iterator", "failAt $at: " . showres($r));
    unset($r);
}
// leaks
foreach ([0, 1, 3, 4, 5, 8, 9, 17] as $n) {
    $mk = function () use ($n, $KIND) { $a = []; for ($i = 0; $i < $n; $i++) $a[] = $KIND === 'int' ? $i : ($KIND === 'bool' ? (bool)($i % 3) : str_repeat('q', 5 + $i)); return $a; };
    leakcheck("$CLS size $n", function () use ($mk, $FULL, $IMM, $has, $KIND) {
        $s = new $FULL($mk()); $c = clone $s; $x = serialize($s); $u = unserialize($x); $t = $s->toArray(); $d = new $FULL(new ArrayIterator($mk())); json_encode($s); var_export($s, true);
        attempt(fn() => new $FULL(new ThrowingIter($mk(), 3))); attempt(fn() => $s->__construct([])); attempt(fn() => $s->__unserialize($s->__serialize()));
        foreach ($s as $v) foreach ($c as $w) { break; }
        if ($has('map')) { $s->map(fn($x) => [$x, 'a' . json_encode($x)]); $s->filter(fn($x) => true); $s->filter(); $k = 0; attempt(fn() => $s->map(function ($x) use (&$k) { if ($k++ == 2) throw new DomainException; return str_repeat('z', 30 + $k); })); $k = 0; attempt(fn() => $s->filter(function ($x) use (&$k) { if ($k++ == 2) throw new DomainException; return true; })); }
        if (!$IMM) { $v = $KIND === 'int' ? 300 : ($KIND === 'bool' ? true : str_repeat('w', 9)); $c->push($v, $v); $c->pushFront($v); $c->insert(1, $v); $c->pop(); $c->popFront(); unset($c[0]); $c[0] = $v; $c[] = $v; $c->set(0, $v); if ($has('setSize')) { $c->setSize(20, $v); $c->setSize(2); } $c->clear(); $c->push($v); for ($i = 0; $i < 40; $i++) $c->push($v); for ($i = 0; $i < 38; $i++) $c->popFront(); }
    });
}
// cycles are collected
if ($KIND === 'mixed') {
    foreach ([1, 3, 5, 8] as $n) {
        $b = Obj::$alive;
        (function () use ($FULL, $n, $IMM) { $o = new Obj; $a = array_fill(0, $n, $o); $s = new $FULL($a); $o->x = $s; if (!$IMM) { $s->pushFront($o); $s->pop(); } })();
        gc_collect_cycles();
        if (Obj::$alive !== $b) fail("$CLS cycle of $n", "objects alive after gc: " . (Obj::$alive - $b));
    }
    // rotated storage
    if (!$IMM) { $b = Obj::$alive; (function () use ($FULL) { $o = new Obj; $p = new Obj; $s = new $FULL([1, 2, 3, 4]); for ($i = 0; $i < 3; $i++) { $s->popFront(); $s->push($i ? $p : $o); } $o->x = $s; $p->x = $s; })(); gc_collect_cycles(); if (Obj::$alive !== $b) fail("$CLS rotated cycle", "not collected"); }
}
stats(); echo "DRVOK\n";
