<?php
// Independent reference implementations of strict equality and the stable order, in plain PHP.
require_once __DIR__ . '/lib.php';

/** rank of the type in the documented order */
function trank($v): int { return match (true) { $v === null => 1, $v === false => 2, $v === true => 3, is_int($v), is_float($v) => 4, is_string($v) => 6, is_array($v) => 7, is_object($v) => 8, default => 9 }; }
/** exact comparison of an int and a non-NAN float: sign of (int - float) */
function cmpif(int $i, float $f): int {
    if ($f >= 9223372036854775808.0) return -1;
    if ($f < -9223372036854775808.0) return 1;
    $t = floor($f); $ti = (int)$t;
    if ($i !== $ti) return $i < $ti ? -1 : 1;
    return $f > $t ? -1 : 0;
}
/** stable order; null when the reference leaves the order of two different values open (arrays of equal size, objects) */
function scmp($a, $b, int $d = 0): ?int { if ($d > 12) return null;
    $ra = trank($a); $rb = trank($b);
    if ($ra !== $rb) return $ra <=> $rb;
    if ($ra <= 3) return 0;
    if ($ra === 4) {
        if (is_int($a) && is_int($b)) return $a <=> $b;
        if (is_int($a)) { if (is_nan($b)) return -1; $c = cmpif($a, $b); return $c ?: -1; }
        if (is_int($b)) { if (is_nan($a)) return 1; $c = -cmpif($b, $a); return $c ?: 1; }
        if (is_nan($a) || is_nan($b)) return is_nan($a) <=> is_nan($b);
        return $a <=> $b;
    }
    if ($ra === 6) { $c = strcmp($a, $b); return $c <=> 0; }
    if ($ra === 7) { if (seq($a, $b)) return 0; if (count($a) !== count($b)) return count($a) <=> count($b);
        if (array_keys($a) === array_keys($b)) { foreach ($a as $k => $v) { $c = scmp($v, $b[$k], $d + 1); if ($c !== 0) return $c; } return 0; }
        return null; }
    if ($ra === 8) { if ($a === $b) return 0; $c = strcmp(get_class($a), get_class($b)); if ($c) return $c <=> 0; return spl_object_id($a) <=> spl_object_id($b); }
    return get_resource_id($a) <=> get_resource_id($b);
}
/** strict equality: === with NAN equal to itself, at every array level */
function seq($a, $b, int $d = 0): bool { if ($d > 12) return true;
    if (is_float($a) && is_float($b)) return $a === $b || (is_nan($a) && is_nan($b));
    if (is_array($a) && is_array($b)) {
        if (count($a) !== count($b) || array_keys($a) !== array_keys($b)) return false;
        foreach ($a as $k => $v) if (!seq($v, $b[$k], $d + 1)) return false;
        return true;
    }
    return $a === $b;
}
/** order used to keep a sorted reference; ties between different arrays are left to the extension's own answer */
function ord2($a, $b): int { $c = scmp($a, $b); return $c ?? Teds\stable_compare($a, $b); }
function isort(array $vals): array { usort($vals, 'ord2'); $o = []; foreach ($vals as $v) if (!$o || ord2($o[count($o) - 1], $v) !== 0) $o[] = $v; return $o; }
