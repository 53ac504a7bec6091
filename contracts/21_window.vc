@def WIN(f; e)
@@ fn window_fn::$f
@requires
    1 <= len <= 2 * max_len(),
@ensures
    r.len() == len, //#winlen
    forall|i: int| 0 <= i < len ==> (#[trigger] r@[i])@ == $e(len as int, i), //#winval
@loop 0
    invariant
        $hi == len, $v@.len() == $i,
        forall|i: int| 0 <= i < $i ==> (#[trigger] $v@[i])@ == $e(len as int, i),
@enddef
@def WINS(f; e)
@use WIN($f; $e)
@at after-let constant_term
    proof { lem_cf(constant_term@, len as real, 2 * (len as int), 2); }
    assert(constant_term@ * (2 * (len as int)) as real == pi() * (2) as real);
@at loop0 begin
    proof { lem_table(constant_term@, 0.5real, $i as int, 2 * (len as int), 2, 1); lem_vorbis(ss(2 * (len as int), 2 * $i as int + 1)); }
@enddef
@use WINS(mp3; win_mp3)
@use WINS(mp3_invertible; win_mp3i)
@at after-let outer_scale
    proof { lem_winscale(len as int); }
@use WINS(vorbis; win_vorbis)
@use WINS(vorbis_invertible; win_vorbisi)
@at after-let outer_scale
    proof { lem_winscale(len as int); }
@use WIN(one; win_one)
@use WIN(invertible; win_inv)
@at after-let constant_term
    proof { lem_winscale(len as int); }
