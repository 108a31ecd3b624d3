<?php
// Shared machinery of the concrete replay drivers: run operation sequences against the real
// extension and an independent reference written in plain PHP, and report the first sequence
// on which they differ (shrunk by dropping operations).
declare(strict_types=0);
error_reporting(E_ALL & ~E_DEPRECATED);
ini_set('memory_limit', '2G');
set_error_handler(function ($no, $msg) {
    if ($no & (E_DEPRECATED | E_USER_DEPRECATED)) return true;
    $GLOBALS['warnings'][] = $msg;
    return true;
});
$SEED = (int)(getenv('VERIF_SEED') ?: 1);
$SCALE = (float)(getenv('DRV_SCALE') ?: 1);
$LOGF = getenv('DRV_LOG') ?: null;
$STATS = ['evaluations' => 0, 'ops' => 0, 'distinct' => [], 'samples' => []];
mt_srand($SEED);

class Obj {                       // tracked object: every instance must die exactly once
    public static int $alive = 0; public static int $serial = 0;
    public int $id;
    public function __construct(public mixed $x = null) { self::$alive++; $this->id = ++self::$serial; }
    public function __destruct() { self::$alive--; }
    public function __wakeup() { self::$alive++; }
}
class ThrowingIter implements IteratorAggregate {
    public function __construct(public array $vals, public int $failAt) {}
    public function getIterator(): Iterator { $i = 0; foreach ($this->vals as $k => $v) { if ($i++ === $this->failAt) throw new DomainException('iter'); yield $k => $v; } if ($i === $this->failAt) throw new DomainException('iter'); }
}
class PairIter implements Iterator {  // arbitrary keys
    private int $i = 0;
    public function __construct(public array $pairs) {}
    public function current(): mixed { return $this->pairs[$this->i][1]; }
    public function key(): mixed { return $this->pairs[$this->i][0]; }
    public function next(): void { $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->pairs); }
}

function same($a, $b, int $d = 0): bool {
    if ($d > 12) return true;   // recursive arrays
    if (is_float($a) && is_float($b)) {
        if (is_nan($a) || is_nan($b)) return is_nan($a) && is_nan($b);
        return $a === $b && (($a != 0.0) || (fdiv(1.0, $a) === fdiv(1.0, $b)));
    }
    if (is_array($a) && is_array($b)) {
        if (count($a) !== count($b)) return false;
        $ka = array_keys($a); if ($ka !== array_keys($b)) return false;
        foreach ($ka as $k) if (!same($a[$k], $b[$k], $d + 1)) return false;
        return true;
    }
    return $a === $b;
}
// === without IEEE surprises for arrays handled by PHP itself
function ident($a, $b): bool { return $a === $b; }

function show($v, int $d = 0): string {
    if (is_float($v)) { if (is_nan($v)) return 'NAN'; if (is_infinite($v)) return $v > 0 ? 'INF' : '-INF'; $s = var_export($v, true); return $v == 0.0 && fdiv(1.0, $v) < 0 ? '-0.0' : $s; }
    if (is_int($v)) return $v === PHP_INT_MIN ? 'PHP_INT_MIN' : (string)$v;
    if (is_array($v)) { if ($d > 4) return '[…]'; $o = []; $list = array_is_list($v); foreach ($v as $k => $x) $o[] = ($list ? '' : var_export($k, true) . '=>') . show($x, $d + 1); return '[' . implode(',', $o) . ']'; }
    if ($v instanceof UnitEnum) return get_class($v) . '::' . $v->name;
    if ($v instanceof Closure) return 'fn';
    if ($v instanceof ThrowingIter) return 'new ThrowingIter(' . show($v->vals, $d) . ',' . $v->failAt . ')';
    if ($v instanceof PairIter) return 'new PairIter(' . show($v->pairs, $d) . ')';
    if ($v instanceof ArrayIterator) return 'new ArrayIterator(' . show($v->getArrayCopy(), $d) . ')';
    if ($v instanceof Obj) return "obj#{$v->id}";
    if (is_object($v)) return get_class($v);
    if (is_resource($v)) return 'resource';
    return var_export($v, true);
}
function attempt(callable $f): array {
    try { return ['ret', $f()]; }
    catch (Throwable $e) { return ['exc', get_class($e), $e->getMessage()]; }
}
/** The engine's reference count of an object (+ a constant): a leaked or missing reference shows here even while the object is alive. */
function refcount(object $o): int { ob_start(); debug_zval_refcount_helper($o); $t = ob_get_clean(); return preg_match('/refcount\((\d+)\)/', $t, $m) ? (int)$m[1] : -1; }
function debug_zval_refcount_helper(object $o): void { debug_zval_dump($o); }
function rnd(array $a) { return $a[mt_rand(0, count($a) - 1)]; }
function chance(int $pct): bool { return mt_rand(1, 100) <= $pct; }

function fail(string $what, $detail, array $trace = []): void {
    echo "DRVFAIL ", json_encode(['what' => $what, 'detail' => is_string($detail) ? $detail : show($detail), 'trace' => $trace], JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR), "\n";
    stats(); exit(1);
}
function stats(): void {
    global $STATS; $s = $STATS; $s['distinct_nontrivial'] = count($s['distinct']); unset($s['distinct']);
    echo "DRVSTATS ", json_encode($s, JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR), "\n";
}
function logcase(string $s): void { global $LOGF; if ($LOGF) file_put_contents($LOGF, $s . "\n"); }

/** Runs generator-made sequences. $run(array $ops): ?string returns a description of the first difference. */
function sequences(string $name, int $n, callable $gen, callable $run, callable $showop): void {
    global $STATS, $SCALE;
    $n = max(1, (int)($n * $SCALE));
    for ($i = 0; $i < $n; $i++) {
        $ops = $gen($i);
        $key = implode("; ", array_map($showop, $ops));
        logcase("$name: $key");
        $err = $run($ops);
        $STATS['evaluations']++; $STATS['ops'] += count($ops);
        if (count($ops) > 1) $STATS['distinct'][md5($name . $key)] = 1;
        if ($i < 2) $STATS['samples'][] = "$name: " . substr($key, 0, 300);
        if ($err !== null) {
            // shrink
            $changed = true; $budget = 400;
            while ($changed && $budget > 0) {
                $changed = false;
                for ($j = count($ops) - 1; $j >= 0 && $budget-- > 0; $j--) {
                    $try = $ops; array_splice($try, $j, 1);
                    if (!$try) continue;
                    logcase("$name: " . implode("; ", array_map($showop, $try)));
                    $e = $run($try);
                    if ($e !== null) { $ops = $try; $err = $e; $changed = true; }
                }
            }
            fail($name, $err, array_map($showop, $ops));
        }
    }
}
/** Memory must not grow when the same sequence is repeated. */
function leakcheck(string $name, callable $f): void {
    $f(); $f(); gc_collect_cycles();
    $a = memory_get_usage(); $f(); $f(); $f(); gc_collect_cycles(); $b = memory_get_usage();
    if ($b > $a) { $a = memory_get_usage(); for ($i = 0; $i < 8; $i++) $f(); gc_collect_cycles(); $b = memory_get_usage();
        if ($b >= $a + 8 * 8) fail("$name leaks memory", "usage grows by " . ($b - $a) . " bytes over 8 repetitions"); }
    $GLOBALS['STATS']['evaluations']++;
}
