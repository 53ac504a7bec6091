@@ items plan
// every cached transform is a correct one of the length it is filed under
pub open spec fn ok_dct1(m: Map<usize, Arc<dyn Dct1>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dst1(m: Map<usize, Arc<dyn Dst1>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dct23(m: Map<usize, Arc<dyn TransformType2And3>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dct4(m: Map<usize, Arc<dyn TransformType4>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dct5(m: Map<usize, Arc<dyn Dct5>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dst5(m: Map<usize, Arc<dyn Dst5>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dct6(m: Map<usize, Arc<dyn Dct6And7>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dst6(m: Map<usize, Arc<dyn Dst6And7>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dct8(m: Map<usize, Arc<dyn Dct8>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn ok_dst8(m: Map<usize, Arc<dyn Dst8>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).wf() && m[k].slen() == k }
pub open spec fn pwf(p: DctPlanner) -> bool {
    &&& ok_dct1(p.dct1_cache@) && ok_dst1(p.dst1_cache@) && ok_dct23(p.dct23_cache@) && ok_dct4(p.dct4_cache@)
    &&& ok_dct5(p.dct5_cache@) && ok_dst5(p.dst5_cache@) && ok_dct6(p.dct6_cache@) && ok_dst6(p.dst6_cache@)
    &&& ok_dct8(p.dct8_cache@) && ok_dst8(p.dst8_cache@)
}
@@ fn DctPlanner::new
@ensures
    pwf(r), //#plan
@def PLAN(F; lo; hi)
@@ fn DctPlanner::$F
@requires
    pwf(*old(self)),
    $lo <= len <= $hi,
@ensures
    pwf(*final(self)), //#plan
    r.wf(), //#plan
    r.slen() == len, //#plan
@enddef
@use PLAN(plan_dct1; 2; max_len())
@use PLAN(plan_new_dct1; 2; max_len())
@use PLAN(plan_dst1; 1; max_len())
@use PLAN(plan_new_dst1; 1; max_len())
@use PLAN(plan_dct2; 1; max_len())
@decreases len, 1int
@use PLAN(plan_new_dct2; 1; max_len())
@decreases len, 0int
@at entry
    proof { reveal_with_fuel(is_pow2, 4); }
@use PLAN(plan_dct2_butterfly; 2; 16)
@requires
    len == 2 || len == 3 || len == 4 || len == 8 || len == 16,
@use PLAN(plan_dct3; 1; max_len())
@use PLAN(plan_dst2; 1; max_len())
@use PLAN(plan_dst3; 1; max_len())
@use PLAN(plan_dct4; 1; max_len())
@use PLAN(plan_new_dct4; 1; max_len())
@use PLAN(plan_dst4; 1; max_len())
@use PLAN(plan_dct5; 1; max_len())
@use PLAN(plan_new_dct5; 1; max_len())
@use PLAN(plan_dst5; 1; max_len())
@use PLAN(plan_new_dst5; 1; max_len())
@use PLAN(plan_dct6; 1; max_len())
@use PLAN(plan_new_dct6; 1; max_len())
@use PLAN(plan_dct7; 1; max_len())
@use PLAN(plan_dst6; 1; max_len())
@use PLAN(plan_new_dst6; 1; max_len())
@use PLAN(plan_dst7; 1; max_len())
@use PLAN(plan_dct8; 1; max_len())
@use PLAN(plan_new_dct8; 1; max_len())
@use PLAN(plan_dst8; 1; max_len())
@use PLAN(plan_new_dst8; 1; max_len())
@def PLANM(F)
@@ fn DctPlanner::$F
@requires
    pwf(*old(self)),
    1 <= len <= max_len(),
    window_fn.requires(((2 * len) as usize,)),
@panics len % 2 != 0 || bad_window(window_fn, len as int)
@ensures
    pwf(*final(self)), //#plan
    r.wf(), //#plan
    r.slen() == len, //#plan
    exists|w: Vec<R>| #[trigger] window_fn.ensures(((2 * len) as usize,), w) && r.win() == w@, //#window
@enddef
@use PLANM(plan_mdct)
@use PLANM(plan_new_mdct)
