<?php
// Iteration while the collection is modified (arg: class names, comma separated, or 'all').
// Every element has a unique identity; a model list with one marker per open iterator says which element must come next.
require __DIR__ . '/ref.php';
$ALL = ['Vector', 'Deque', 'LowMemoryVector', 'IntVector', 'MutableIterable', 'StrictHashSet', 'StrictHashMap', 'StrictTreeSet', 'StrictTreeMap', 'StrictSortedVectorSet', 'StrictSortedVectorMap', 'SortedIntVectorSet'];
$LIST = $argv[1] === 'all' ? $ALL : explode(',', $argv[1]);
function kindOf(string $c): string { return match (true) { str_contains($c, 'Iterable') => 'pairs', str_contains($c, 'Map') => 'map', str_contains($c, 'Set') => 'set', default => 'seq' }; }
class Mark { public $gen; public int $at = 0; public bool $cur = false; public bool $started = false; public bool $done = false; public bool $loose = false; public array $may = []; public function __construct(public int $how) {} }
function loop($s) { foreach ($s as $k => $v) yield [$k, $v]; }
function genops(string $c, int $seed): array {
    $k = kindOf($c); $ops = [['new', $c, mt_rand(0, $seed % 7 === 0 ? 40 : 10), mt_rand(0, 3)]]; $n = mt_rand(3, 50);
    for ($i = 0; $i < $n; $i++) {
        $o = rnd(['step', 'step', 'step', 'step', 'open', $k, $k, $k, 'close', 'rewind']);
        if ($o === 'close' && chance(60)) $o = 'step';
        if ($o === $k) $o = match ($k) {
            'seq' => rnd(['push', 'push', 'pushFront', 'pop', 'popFront', 'insert', 'insert', 'offsetUnset', 'offsetUnset', 'set', 'setSize', 'shrink', 'clone', 'clear']),
            'pairs' => rnd(['push', 'push', 'pop', 'setValueAt', 'setSize', 'clone', 'clear', 'push']),
            default => rnd(['add', 'add', 'add', 'remove', 'remove', 'removeCur', 'overwrite', 'pop', 'popFront', 'clone', 'clear', 'readd']) };
        if ($o === 'clear' && chance(80)) $o = 'step';
        $ops[] = [$o, mt_rand(0, 1000), rnd([1, 1, 1, 2, 3, 9]), mt_rand(0, 3)];
    }
    for ($i = mt_rand(0, 60); $i > 0; $i--) $ops[] = ['step', mt_rand(0, 1000), 1, 0];
    return $ops;
}
function showop(array $o): string { return $o[0] . '(' . implode(', ', array_map('show', array_slice($o, 1))) . ')'; }
class Run {
    public $s; public array $els = []; public array $its = []; public int $n = 0; public array $gone = []; public string $k;
    public function __construct(public string $c, int $size, int $form) {
        $this->k = kindOf($c); $cls = "Teds\\$c"; $init = [];
        if ($this->k === 'set' || $this->k === 'map') { $this->s = new $cls([]); for ($i = 0; $i < $size; $i++) $this->put($this->fresh()); return; }
        for ($i = 0; $i < $size; $i++) { $e = $this->fresh(); $init[] = $e; }
        if ($this->k === 'seq') { $this->s = new $cls(array_column($init, 1)); $this->els = $init; }
        elseif ($this->k === 'pairs') { $this->s = new $cls((function () use ($init) { foreach ($init as $e) yield $e[0] => $e[1]; })()); $this->els = $init; }
    }
    /** [key, value, id] */
    public function fresh(): array {
        $id = ++$this->n; $c = $this->c;
        $w = $id + rnd([0, 0, 0, 1 << 11, 1 << 20, 1 << 42]);
        if ($this->k === 'seq') return [null, $c === 'IntVector' ? $w : (chance(70) ? $w : rnd([fn() => "v$id", fn() => $id + 0.5, fn() => new Obj($id)])()), $id];
        if ($c === 'SortedIntVectorSet') { do { $q = mt_rand(-60, 400) * rnd([1, 1, 1, 1000]); } while ($this->find($q) >= 0); return [$q, $q, $id]; }
        do { $q = rnd([fn() => mt_rand(0, 99), fn() => mt_rand(0, 99), fn() => 's' . mt_rand(0, 50), fn() => mt_rand(0, 50) + 0.5])(); } while ($this->find($q) >= 0);
        return [$q, $this->k === 'set' ? $q : "v$id", $id];
    }
    /** a map/set key that is in nobody's way */
    public function find($key): int { foreach ($this->els as $i => $e) if ($e[0] === $key) return $i; return -1; }
    public function ins(int $i, array $es): void {
        foreach ($this->its as $m) { if (!$m->started || $m->done) continue;
            if ($i < $m->at) { $m->at += count($es); continue; } if ($m->cur) continue;
            for ($q = $m->at; $q < $i && isset($m->may[$this->els[$q][2]]); $q++); if ($q === $i) foreach ($es as $e) $m->may[$e[2]] = 1; } // where the removed element was: before or after it is open
        array_splice($this->els, $i, 0, $es);
    }
    public function del(int $i): array { foreach ($this->its as $m) if ($m->started && !$m->done && $i < $m->at) { $m->at--; if ($i === $m->at && $m->cur) $m->cur = false; } $e = $this->els[$i]; array_splice($this->els, $i, 1); $this->gone[] = $e; return $e; }
    public function put(array $e): void {
        if ($this->k === 'map') $this->s[$e[0]] = $e[1]; else $this->s->add($e[0]);
        $p = count($this->els); if (!str_contains($this->c, 'Hash')) { $p = 0; while ($p < count($this->els) && ord2($this->els[$p][0], $e[0]) < 0) $p++; }
        $this->ins($p, [$e]);
    }
    public function step(int $r): ?string {
        $open = array_values(array_filter($this->its, fn($m) => !$m->done)); if (!$open) return null; $m = $open[$r % count($open)];
        if (!$m->started) { $m->started = true; if ($m->how === 0) $m->gen = loop($this->s); else { $m->gen = $this->s->getIterator(); $m->gen->rewind(); } } else $m->gen->next();
        $valid = $m->gen->valid();
        $p = $m->at; $n = count($this->els);
        if (!$valid) { $m->done = true; if ($m->loose) return null; for (; $p < $n; $p++) if (!isset($m->may[$this->els[$p][2]])) return "iteration ended although element " . $this->d($this->els[$p]) . ' is still ahead'; return null; }
        [$k, $v] = $m->how === 0 ? $m->gen->current() : [$m->gen->key(), $m->gen->current()];
        if ($m->loose) $p = 0;
        for ($q = $p; $q < $n; $q++) { $e = $this->els[$q]; if (same($v, $e[1]) && ($this->k === 'seq' ? $k === $q : ($this->k === 'set' || same($k, $e[0])))) { $m->at = $q + 1; $m->cur = true; $m->may = []; return null; } if (!$m->loose && !isset($m->may[$e[2]])) break; }
        if ($q >= $n) return 'iteration yields ' . show([$k, $v]) . ' although nothing is ahead of it';
        return 'iteration yields ' . show([$k, $v]) . ', expected ' . $this->d($this->els[$q]) . " at $q";
    }
    public function d(array $e): string { return ($this->k === 'seq' || $this->k === 'set' ? '' : show($e[0]) . ' => ') . show($e[1]); }
    public function op(array $o): ?string {
        [$op, $r, $cnt, $f] = $o; $s = $this->s; $n = count($this->els); $fresh = function () use ($cnt) { $a = []; for ($i = 0; $i < $cnt; $i++) $a[] = $this->fresh(); return $a; };
        switch ($op) {
            case 'step': return $this->step($r);
            case 'open': if (count(array_filter($this->its, fn($m) => !$m->done)) < 4) $this->its[] = new Mark($f % 2); break;
            case 'close': if ($this->its) { array_splice($this->its, $r % count($this->its), 1); } break;
            case 'rewind': foreach ($this->its as $m) if ($m->started && $m->how === 1 && chance(50)) { $m->gen->rewind(); $m->done = false; $m->loose = false; $m->may = []; $m->at = 0; $m->cur = false; 
                if ($m->gen->valid() !== (bool)$this->els) return 'valid() after rewind() is ' . show($m->gen->valid()); if (!$this->els) { $m->done = true; break; } if (!same($m->gen->current(), $this->els[0][1])) return 'rewind() starts at ' . show($m->gen->current()) . ', expected ' . $this->d($this->els[0]); $m->at = 1; $m->cur = true; break; } break;
            case 'push': if ($this->k === 'pairs') { $e = $this->fresh(); $s->push($e[0], $e[1]); $this->ins($n, [$e]); } else { $a = $fresh(); $s->push(...array_column($a, 1)); $this->ins($n, $a); } break;
            case 'pushFront': $a = $fresh(); $s->pushFront(...array_column($a, 1)); $this->ins(0, array_reverse($a)); break;
            case 'insert': $i = $r % ($n + 1); $a = $fresh(); $s->insert($i, ...array_column($a, 1)); $this->ins($i, $a); break;
            case 'pop': if ($n === 0 || !method_exists($s, 'pop')) break; $s->pop(); $this->del($n - 1); break;
            case 'popFront': if ($n === 0 || !(method_exists($s, 'popFront') || method_exists($s, 'shift'))) break; method_exists($s, 'popFront') ? $s->popFront() : $s->shift(); $this->del(0); break;
            case 'offsetUnset': if (!$n || !method_exists($s, 'offsetUnset')) break; $i = $r % $n; unset($s[$i]); $this->del($i); break;
            case 'set': if (!$n) break; $i = $r % $n; $e = $this->fresh(); $s->set($i, $e[1]); $this->els[$i] = [null, $e[1], $this->els[$i][2]]; break;
            case 'setSize': if (!method_exists($s, 'setSize')) break; if ($r % 2 || $this->c === 'IntVector' || $this->k === 'pairs' || $this->c === 'LowMemoryVector') { $i = $n ? $r % ($n + 1) : 0; $i = max($i, $n - 4); if ($i > $n) $i = $n; $s->setSize($i); foreach ($this->its as $m) if ($m->started && $m->at > $i) { $m->loose = true; } while (count($this->els) > $i) $this->del(count($this->els) - 1); } else { $e = $this->fresh(); $s->setSize($n + 1, $e[1]); $this->ins($n, [$e]); } break;
            case 'setValueAt': if (!$n) break; $i = $r % $n; $e = $this->fresh(); $s->setValueAt($i, $e[1]); $this->els[$i][1] = $e[1]; break;
            case 'shrink': if (method_exists($s, 'shrinkToFit')) $s->shrinkToFit(); break;
            case 'clone': $x = clone $s; foreach ($x as $q) { break; } if ($f === 0 && method_exists($x, 'pop') && $n) $x->pop(); break;
            case 'clear': $s->clear(); foreach ($this->its as $m) if ($m->started) { $m->loose = true; $m->at = 0; $m->cur = false; } $this->els = []; break;
            case 'add': $this->put($this->fresh()); break;
            case 'remove': case 'removeCur': if (!$n) break; $i = $r % $n; if ($op === 'removeCur') { $m = $this->its ? $this->its[$r % count($this->its)] : null; if (!$m || !$m->cur || $m->done || $m->at < 1) break; $i = $m->at - 1; } $k = $this->els[$i][0]; if ($this->k === 'map') unset($s[$k]); else $s->remove($k); $this->del($i); break;
            case 'overwrite': if (!$n || $this->k !== 'map') break; $i = $r % $n; $v = 'w' . ++$this->n; $s[$this->els[$i][0]] = $v; $this->els[$i][1] = $v; break;
            case 'readd': if (!$this->gone) break; $e = $this->gone[$r % count($this->gone)]; if ($this->find($e[0]) >= 0) break; $e[2] = ++$this->n; $this->put($e); break;
        }
        return null;
    }
}
function run(array $ops): ?string {
    if ($ops[0][0] !== 'new') return null;
    mt_srand($GLOBALS['SEED'] + 77); $x = new Run($ops[0][1], $ops[0][2], $ops[0][3]);
    for ($i = 1; $i < count($ops); $i++) {
        try { $e = $x->op($ops[$i]); } catch (Throwable $t) { return "op #$i " . showop($ops[$i]) . ' throws ' . get_class($t) . ': ' . $t->getMessage() . ' at line ' . $t->getLine(); }
        if ($e !== null) return "op #$i " . showop($ops[$i]) . ": $e";
        if (count($x->s) !== count($x->els)) return "op #$i " . showop($ops[$i]) . ': count is ' . count($x->s) . ', expected ' . count($x->els);
    }
    return null;
}
foreach ($LIST as $c) {
    sequences($c, 900, function ($i) use ($c) { mt_srand($GLOBALS['SEED'] * 7001 + $i); return genops($c, $i); }, 'run', 'showop');
    leakcheck($c, function () use ($c) { mt_srand(3); for ($i = 0; $i < 15; $i++) run(genops($c, $i)); });
}
stats(); echo "DRVOK\n";
