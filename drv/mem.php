<?php
// Ownership and memory safety: tracked elements whose destructors, and callbacks that, use the very collection being operated on;
// exceptions at every point; cycles for the collector (arg: class names, comma separated, or 'all').
require __DIR__ . '/ref.php';
/** converting a key or an offset can raise a notice: the error handler may use the collection too */
$ONERR = null;
set_error_handler(function () { global $ONERR; if ($h = $ONERR) { $ONERR = null; $h(); } return true; });
ini_set('zend.exception_ignore_args', '1');
$ALL = ['Vector', 'Deque', 'ImmutableSequence', 'LowMemoryVector', 'IntVector', 'BitVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'StrictHashSet', 'StrictHashMap', 'StrictTreeSet', 'StrictTreeMap', 'StrictSortedVectorSet', 'StrictSortedVectorMap', 'StrictMinHeap', 'StrictMaxHeap', 'ImmutableIterable', 'MutableIterable', 'CachedIterable'];
$LIST = $argv[1] === 'all' ? $ALL : explode(',', $argv[1]);
function kind(string $c): string { return match (true) { $c === 'BitVector' => 'bool', str_contains($c, 'Int') && !str_contains($c, 'Iter') => 'int', $c === 'ImmutableSortedStringSet' => 'str', str_contains($c, 'Map') => 'map', str_contains($c, 'Iterable') => 'pairs', str_contains($c, 'Heap') => 'heap', str_contains($c, 'Set') => 'set', default => 'seq' }; }
/** an element that acts when it dies */
class Trig { public static int $alive = 0; public static int $depth = 0; public static int $fired = 0; public $do = null; public $link = null;
    public function __construct() { self::$alive++; }
    public function __destruct() { self::$alive--; $d = $this->do; $this->do = null; if ($d && self::$depth < 3) { self::$depth++; self::$fired++; try { $d(); } finally { self::$depth--; } } } }
class Ctx { public $s; public string $c; public string $k; public int $nest = 0; public array $todo = [];
    public function __construct(string $c) { $this->c = $c; $this->k = kind($c); } }
/** a value; some are tracked objects, some fresh strings or arrays. $act: what happens when the tracked object is destroyed */
function val(Ctx $x, array $o) {
    [, $r, $q, $t, $act] = $o;
    if ($x->k === 'int') return [$r % 50, $r, -$r * 1000, $r << 20, $r << 40][$q % 5]; if ($x->k === 'bool') return (bool)($r % 2); if ($x->k === 'str') return str_repeat(chr(97 + $r % 3), $q) . $r % 20;
    switch ($t % 6) { case 0: case 1: case 2: $e = new Trig; if ($act !== null) $e->do = action($x, $act); if ($t === 2) $e->link = $x->s; return $e;
        case 3: return 'str' . ($r % 30) . str_repeat('x', $q % 4); case 4: $e = new Trig; if ($act !== null) $e->do = action($x, $act); return ['k' => $e, 'n' => $r % 9]; default: return [$r % 10, ($r % 10) / 4, null, true][$q % 4]; }
}
function action(Ctx $x, $act): Closure { $w = WeakReference::create($x->s ?? $x); $rs = static function () use ($w, $x, $act) { $s = $w->get(); if ($s === null || $s === $x) return; if ($act[0] === 'throw') throw new DomainException('dtor'); if (++$x->nest < 12) apply($x, $s, $act); };
    return $rs; }
function at($s, int $r): int { $n = count($s); return $n ? $r % $n : 0; }
function anyval($s, int $r) { $v = method_exists($s, 'values') ? $s->values() : []; return $v ? array_values($v)[$r % count($v)] : 0; }
function anykey($s, int $r) { $v = method_exists($s, 'keys') ? $s->keys() : anyval($s, $r); return is_array($v) && method_exists($s, 'keys') ? ($v ? $v[$r % count($v)] : 0) : $v; }
function looper($s, Ctx $x, array $o, int $lim) { $i = 0; foreach ($s as $k => $v) { unset($v); $v = null; if ($i++ === $o[2] % 3) { $o4 = $o[4]; if ($o4 !== null) { if ($o4[0] === 'throw') throw new DomainException('loop'); if (++$x->nest < 12) apply($x, $s, $o4); } } if ($i > $lim) break; } }
/** one operation on the collection; every exception of the extension is expected */
function apply(Ctx $x, $s, array $o): void {
    [$op, $r, $q, $t, $act] = $o; $k = $x->k;
    $cb = function (...$a) use ($x, $s, $act, $q) { static $i = 0; $res = $a[0] ?? null; if ($i++ === $q % 4 && $act !== null) { if ($act[0] === 'throw') throw new DomainException('callback'); if (++$x->nest < 12) apply($x, $s, $act); } return $q % 3 === 0 ? $res : ($q % 3 === 1 ? (bool)(($i ^ $q) & 1) : [$res]); };
    $m = $op;
    try { switch ($op) {
        case 'push': case 'pushFront': if (!method_exists($s, $m)) $m = 'add'; if (!method_exists($s, $m) && $k !== 'map') break;
            if ($k === 'map') { $s[val($x, $o)] = val($x, [0, $r + 1, $q + 1, $t + 1, $act]); } elseif ($k === 'pairs') $s->push(val($x, $o), val($x, [0, $r, $q, $t + 1, $act])); elseif ($m === 'add') $s->add(val($x, $o)); elseif ($q % 5 === 0) $s->$m(val($x, $o), val($x, [0, $r + 3, $q, $t, $act]), val($x, $o)); else $s->$m(val($x, $o)); break;
        case 'insert': if (method_exists($s, 'insert')) $s->insert($r % (count($s) + 1), ...($q % 3 ? [val($x, $o)] : [val($x, $o), val($x, [0, $r, $q, 0, $act])])); break;
        case 'pop': case 'popFront': case 'shift': case 'extract': if (method_exists($s, $m)) $s->$m(); break;
        case 'set': if ($k === 'map') $s[anykey($s, $r)] = val($x, $o); elseif ($k === 'pairs' && method_exists($s, 'setKeyAt')) { $q % 2 ? $s->setKeyAt(at($s, $r), val($x, $o)) : $s->setValueAt(at($s, $r), val($x, $o)); } elseif (method_exists($s, 'set')) $q % 2 ? $s->set(at($s, $r), val($x, $o)) : $s[at($s, $r)] = val($x, $o); break;
        case 'unset': if ($k === 'map') { unset($s[anykey($s, $r)]); } elseif (method_exists($s, 'remove')) $s->remove(anyval($s, $r)); elseif (method_exists($s, 'offsetUnset')) unset($s[at($s, $r)]); break;
        case 'clear': if (method_exists($s, 'clear')) $s->clear(); break;
        case 'setSize': if (method_exists($s, 'setSize')) $q % 3 && $k !== 'pairs' ? $s->setSize($r % 12, val($x, $o)) : $s->setSize($r % 9); break;
        case 'reserve': if (method_exists($s, 'reserve')) $s->reserve($r % 40); elseif (method_exists($s, 'shrinkToFit')) $s->shrinkToFit(); break;
        case 'shrink': if (method_exists($s, 'shrinkToFit')) $s->shrinkToFit(); break;
        case 'read': foreach (['first', 'last', 'top', 'bottom', 'values', 'toArray', 'keys', 'toPairs', 'jsonSerialize', 'isEmpty', 'current', 'key', 'valid'] as $f) if (method_exists($s, $f)) try { $s->$f(); } catch (Exception $e) { unset($e); } break;
        case 'find': $v = val($x, $o); foreach (['contains', 'indexOf', 'containsValue', 'containsKey', 'indexOfKey', 'indexOfValue', 'offsetExists', 'get', 'offsetGet', 'keyAt', 'valueAt'] as $f) if (method_exists($s, $f)) try { $s->$f($r % 2 ? anyval($s, $r) : $v); } catch (Throwable $e) { unset($e); } unset($v); break;
        case 'isset': try { $i = at($s, $r); isset($s[$i]); empty($s[$i]); $z = $s[$i] ?? null; unset($z); isset($s[$i]['k']); } catch (Throwable $e) { unset($e); } break;
        case 'nested': if ($k === 'seq' || $k === 'map') { try { $i = $k === 'map' ? anykey($s, $r) : at($s, $r); $s[$i]['z'] = val($x, $o); } catch (Throwable $e) { unset($e); } } break;
        case 'clone': $c = clone $s; if ($q % 2 && method_exists($c, 'clear')) $c->clear(); unset($c); break;
        case 'map': if (method_exists($s, 'map')) $s->map($cb); break;
        case 'filter': if (method_exists($s, 'filter')) $q % 5 ? $s->filter($cb) : $s->filter(); break;
        case 'fold': if (!in_array($k, ['heap'])) match ($r % 6) { 0 => Teds\fold($s, $cb, val($x, $o)), 1 => Teds\any($s, $cb), 2 => Teds\all($s, $cb), 3 => Teds\find($s, $cb, val($x, $o)), 4 => Teds\unique_values($s), default => Teds\includes_value($s, val($x, $o)) }; break;
        case 'loop': if ($k === 'heap' && $q % 3) break; looper($s, $x, $o, 9); break;
        case 'iter': if ($k === 'heap') break; $it = $s->getIterator(); for ($i = $q % 4; $i > 0 && $it->valid(); $i--) { $it->current(); $it->key(); $it->next(); } if ($act !== null && $act[0] !== 'throw' && ++$x->nest < 12) apply($x, $s, $act); $it->valid(); if ($it->valid()) { $it->current(); $it->key(); } $it->next(); if ($r % 2) $it->rewind(); if ($it->valid()) $it->current(); unset($it); break;
        case 'spread': if ($k !== 'heap' && $k !== 'pairs' && $k !== 'map') (fn(...$a) => count($a))(...$s); break;
        case 'ser': if ($k === 'int' || $k === 'bool' || $k === 'str') unserialize(serialize($s)); else { $d = $s->__serialize(); $n = (new ReflectionClass($s))->newInstanceWithoutConstructor(); if ($q % 4 === 0) $d['bad'] = 1; $n->__unserialize($d); } break;
        case 'state': $cl = get_class($s); $cl::__set_state($k === 'pairs' || $k === 'map' ? $s->toPairs() : array_values($s->values())); break;
        case 'again': try { $s->__construct([val($x, $o)]); } catch (Throwable $e) { unset($e); } try { $s->__unserialize([1, 2]); } catch (Throwable $e) { unset($e); } break;
        case 'build': $cl = get_class($s); $g = (function () use ($x, $o, $s, $act, $q, $k) { for ($i = 0; $i < 6; $i++) { if ($i === $q % 7) { if ($act !== null) { if ($act[0] === 'throw') throw new DomainException('source'); if (++$x->nest < 12) apply($x, $s, $act); } } $a = val($x, [0, $o[1] + $i, $o[2], $o[3] + $i, null]); yield ($k === 'pairs' || $k === 'map' ? val($x, [0, $o[1] + $i, $o[2], $o[3], null]) : $i) => $a; unset($a); } })();
            if ($r % 4 === 3 && ($k === 'pairs' || $k === 'map')) { $p = (function () use ($g, $q) { $i = 0; foreach ($g as $kk => $vv) { if ($i++ === $q % 9 && $q > 4) yield [$kk]; yield [$kk, $vv]; } })(); $n = $cl::fromPairs($x->c === 'CachedIterable' ? iterator_to_array($p, false) : $p); } else $n = new $cl($g); if (method_exists($n, 'values')) $n->values(); unset($n, $g); break;
        case 'dump': ob_start(); try { if ($q % 2) var_dump($s); else { var_export($s); } } finally { ob_end_clean(); } break;
        case 'arr': (array)$s; get_object_vars($s); break;
        case 'self': if ($k === 'seq') $s->push($s); elseif ($k === 'set' || $k === 'heap') method_exists($s, 'add') && $s->add($s); elseif ($k === 'map') $s[$s] = $s; elseif ($k === 'pairs' && method_exists($s, 'push')) $s->push($s, $s); break;
        case 'gc': gc_collect_cycles(); break;
        case 'notice': global $ONERR; $f = 0.5 + $r % 4;
            if ($q % 2) { if ($k === 'map') $s[$f] = val($x, [0, $r + 1, $q + 1, $t + 1, null]); elseif ($k === 'pairs') { if (method_exists($s, 'push')) $s->push($f, val($x, [0, $r, $q, $t + 1, null])); } elseif ($k === 'set' || $k === 'heap') $s->add($f); }
            if ($act !== null) $ONERR = static function () use ($x, $s, $act) { if ($act[0] === 'throw') throw new DomainException('handler'); if (++$x->nest < 12) apply($x, $s, $act); };
            try { if ($q % 3 !== 2 && method_exists($s, 'toArray')) $s->toArray(); elseif ($k !== 'map') { match ($q % 7) { 0, 1 => $s[$f], 2 => isset($s[$f]), 3 => $s[$f] ?? null, 4 => $s[$f] = val($x, $o), 5 => empty($s[$f]), 6 => (function () use ($s, $f) { unset($s[$f]); })() }; } } finally { $ONERR = null; } break;
        case 'cmp': Teds\stable_compare($s, val($x, $o)); Teds\strict_hash(anyval($s, $r)); break;
        case 'bits': if ($k === 'bool') foreach (['setInt8', 'setInt16', 'setInt32', 'setInt64'] as $f) { try { $s->$f($r % 3, $r * 77777); } catch (Exception $e) { unset($e); } } break;
    } } catch (Throwable $e) { if ($e instanceof ErrorException) throw $e; unset($e); }
}
const OPS = ['push', 'push', 'push', 'pushFront', 'insert', 'insert', 'pop', 'popFront', 'set', 'set', 'unset', 'unset', 'clear', 'setSize', 'reserve', 'shrink', 'read', 'find', 'isset', 'nested', 'clone', 'map', 'filter', 'fold', 'loop', 'iter', 'spread', 'ser', 'state', 'again', 'build', 'dump', 'arr', 'self', 'gc', 'cmp', 'extract', 'shift', 'bits', 'notice'];
function genact(int $d) { if ($d > 1 || chance(35)) return null; if (chance(10)) return ['throw', 0, 0, 0, null]; $o = rnd(['push', 'push', 'pushFront', 'insert', 'pop', 'popFront', 'set', 'unset', 'clear', 'setSize', 'shrink', 'reserve', 'read', 'find', 'loop', 'clone', 'gc', 'extract', 'dump', 'iter', 'filter', 'ser']); return [$o, mt_rand(0, 99), mt_rand(0, 20), mt_rand(0, 5), genact($d + 1)]; }
function genops(string $c, int $i): array { $ops = [['new', $c, mt_rand(0, $i % 5 ? 9 : 40), mt_rand(0, 5), genact(0)]]; for ($n = mt_rand(1, 25); $n > 0; $n--) { $op = rnd(OPS); if ($op === 'clear' && chance(70)) $op = 'push'; $ops[] = [$op, mt_rand(0, 99), mt_rand(0, 20), mt_rand(0, 5), genact(0)]; } return $ops; }
function showact($a): string { return $a === null ? '-' : $a[0] . '(' . $a[1] . ',' . $a[2] . ',' . $a[3] . ',' . showact($a[4]) . ')'; }
function showop(array $o): string { return showact($o); }
/** distinct tracked objects the collection holds */
function held($s, string $k): int { $seen = []; $walk = function ($v, $d) use (&$walk, &$seen) { if ($v instanceof Trig) { $seen[spl_object_id($v)] = 1; } elseif (is_array($v) && $d < 4) foreach ($v as $w) $walk($w, $d + 1); }; $walk($k === 'map' || $k === 'pairs' ? $s->toPairs() : array_values($s->values()), 0); return count($seen); }
/** destructors may throw */
function collect(): void { for ($i = 0; $i < 6; $i++) { try { if (!gc_collect_cycles() && $i) return; } catch (Throwable $e) { unset($e); } } }
function run(array $ops): ?string {
    if ($ops[0][0] !== 'new') return null;
    collect(); if (Trig::$alive !== 0) { $n = Trig::$alive; Trig::$alive = 0; return "$n tracked objects were left over before the start"; }
    $x = new Ctx($ops[0][1]); $c = 'Teds\\' . $x->c; $k = $x->k; $init = []; $sfirst = null;
    for ($i = 0; $i < $ops[0][2]; $i++) $init[] = val($x, ['', $i * 3, $i, $ops[0][3] + ($i % 2), null]);
    $s = $k === 'map' || $k === 'pairs' ? $c::fromPairs(array_map(fn($v, $i) => [$i % 3 ? $v : [$i, $v], $v], $init, array_keys($init))) : new $c($init); unset($init);
    $x->s = null; $err = null; $w = WeakReference::create($s);
    for ($j = 1; $j < count($ops) && $err === null; $j++) {
        $x->nest = 0; $x->s = $s;
        try { apply($x, $s, $ops[$j]); } catch (DomainException $e) { unset($e); }
        $x->s = null;
        if (!in_array($x->c, ['x'])) { $h = held($s, $k); $a = Trig::$alive; if ($a !== $h) { collect(); $h = held($s, $k); $a = Trig::$alive; } if ($a !== $h) $err = "op #$j " . showop($ops[$j]) . ": $a tracked objects are alive, the collection holds $h"; }
        if (count($s) !== ($k === 'map' || $k === 'pairs' ? count($s->toPairs()) : count($s->values()))) $err = "op #$j " . showop($ops[$j]) . ': count() differs from the number of values';
    }
    $x->nest = 0; try { unset($s, $x); } catch (Throwable $e) { unset($e); } collect();
    if ($err === null && Trig::$alive !== 0) $err = Trig::$alive . ' tracked objects survive the collection';
    if ($err === null && $w->get() !== null) $err = 'the collection survives';
    Trig::$alive = 0;
    return $err;
}
foreach ($LIST as $c) {
    sequences($c, 500, function ($i) use ($c) { mt_srand($GLOBALS['SEED'] * 9001 + $i); return genops($c, $i); }, 'run', 'showop');
    leakcheck($c, function () use ($c) { mt_srand(3); for ($i = 0; $i < 25; $i++) run(genops($c, $i)); });
}
stats(); echo "DRVOK\n";
