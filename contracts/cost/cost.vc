//# C18: steps of every call. Loaded in cost mode only (EXTRACT_COST), on top of the other contracts.
@def WORK(T)
@@ trait $T
    spec fn work(&self) -> int;
@enddef
@use WORK(Dct1)
@use WORK(Dst1)
@use WORK(TransformType2And3)
@use WORK(TransformType4)
@use WORK(Dct5)
@use WORK(Dst5)
@use WORK(Dct6And7)
@use WORK(Dst6And7)
@use WORK(Dct8)
@use WORK(Dst8)
@use WORK(Mdct)
@def OP(T; f)
@@ more $T::process_$f_with_scratch
@cost self.work()
@@ more $T::process_$f
@cost self.work() + 100
@enddef
@use OP(Dct1; dct1)
@use OP(Dst1; dst1)
@use OP(Dct2; dct2)
@use OP(Dct3; dct3)
@@ more Dst2::process_dst2_with_scratch
@cost self.work() + 50 * self.slen()
@@ more Dst2::process_dst2
@cost self.work() + 50 * self.slen() + 100
@@ more Dst3::process_dst3_with_scratch
@cost self.work() + 50 * self.slen()
@@ more Dst3::process_dst3
@cost self.work() + 50 * self.slen() + 100
@use OP(Dct4; dct4)
@use OP(Dst4; dst4)
@use OP(Dct5; dct5)
@use OP(Dst5; dst5)
@use OP(Dct6; dct6)
@use OP(Dct7; dct7)
@use OP(Dst6; dst6)
@use OP(Dst7; dst7)
@use OP(Dct8; dct8)
@use OP(Dst8; dst8)
@@ more Mdct::process_mdct_with_scratch
@cost self.work()
@@ more Mdct::process_imdct_with_scratch
@cost self.work()

//# the double sums: loop o runs over the outputs, B bounds one round
@def NW(T)
@@ type $T
    open spec fn work(&self) -> int { self.slen() * (40 * self.slen() + 100) + 100 * self.slen() + 100 }
@enddef
@def NB(key; o)
@@ more $key
@costloop $o 40 * n + 100
@enddef
@use NW(Type2And3Naive)
@use NB(Type2And3Naive::process_dct2_with_scratch; 0)
@use NB(Type2And3Naive::process_dst2_with_scratch; 0)
@use NB(Type2And3Naive::process_dct3_with_scratch; 0)
@use NB(Type2And3Naive::process_dst3_with_scratch; 0)
@use NW(Type4Naive)
@use NB(Type4Naive::process_dct4_with_scratch; 0)
@use NB(Type4Naive::process_dst4_with_scratch; 0)
@use NW(Dct1Naive)
@use NB(Dct1Naive::process_dct1_with_scratch; 0)
@use NW(Dst1Naive)
@use NB(Dst1Naive::process_dst1_with_scratch; 0)
@use NW(Dct5Naive)
@use NB(Dct5Naive::process_dct5_with_scratch; 1)
@use NW(Dst5Naive)
@use NB(Dst5Naive::process_dst5_with_scratch; 0)
@use NW(Dct6And7Naive)
@use NB(Dct6And7Naive::process_dct6_with_scratch; 1)
@use NB(Dct6And7Naive::process_dct7_with_scratch; 0)
@use NW(Dst6And7Naive)
@use NB(Dst6And7Naive::process_dst6_with_scratch; 0)
@use NB(Dst6And7Naive::process_dst7_with_scratch; 0)
@use NW(Dct8Naive)
@use NB(Dct8Naive::process_dct8_with_scratch; 0)
@use NW(Dst8Naive)
@use NB(Dst8Naive::process_dst8_with_scratch; 0)
@@ more Dct5Naive::process_dct5_with_scratch
@at loop1 after
    proof { assert((n - 1) * (40 * n + 100) + (40 * n + 100) == n * (40 * n + 100)) by(nonlinear_arith); }
@@ more Dct6And7Naive::process_dct6_with_scratch
@at loop1 after
    proof { assert((n - 1) * (40 * n + 100) + (40 * n + 100) == n * (40 * n + 100)) by(nonlinear_arith); }
@@ type MdctNaive
    open spec fn work(&self) -> int { 2 * (self.slen() * (80 * self.slen() + 100)) + 100 }
@@ more MdctNaive::process_mdct_with_scratch
@costloop 0 80 * n + 100
@@ more MdctNaive::process_imdct_with_scratch
@costloop 0 80 * n + 100
@costloop 2 80 * n + 100

//# through an inner transform
@def VIA(T; w)
@@ type $T
    open spec fn work(&self) -> int { $w }
@enddef
@use VIA(Dct1ConvertToFft; self.fft.fcost() + 100 * self.slen() + 100)
@use VIA(Dst1ConvertToFft; self.fft.fcost() + 100 * self.slen() + 100)
@use VIA(Type2And3ConvertToFft; self.fft.fcost() + 200 * self.slen() + 100)
@use VIA(Type4ConvertToFftOdd; self.fft.fcost() + 200 * self.slen() + 200)
@use VIA(Dst6And7ConvertToFft; self.fft.fcost() + 200 * self.slen() + 200)
@use VIA(Type4ConvertToType3Even; 2 * self.inner_dct.work() + 200 * self.slen() + 100)
@use VIA(Type2And3SplitRadix; self.half_dct.work() + 2 * self.quarter_dct.work() + 200 * self.slen() + 100)
@use VIA(MdctViaDct4; self.dct.work() + 100 * self.slen() + 100)
@use VIA(Type2And3Butterfly2; 100)
@use VIA(Type2And3Butterfly3; 100)
@use VIA(Type2And3Butterfly4; 200)
@use VIA(Type2And3Butterfly8; 500)
@use VIA(Type2And3Butterfly16; 1500)
@@ more Type2And3Butterfly2::process_inplace_dct2
@cost self.work()
@@ more Type2And3Butterfly2::process_inplace_dct3
@cost self.work()
@@ more Type2And3Butterfly2::process_inplace_dst2
@cost self.work()
@@ more Type2And3Butterfly2::process_inplace_dst3
@cost self.work()
@@ more Type2And3Butterfly3::process_inplace_dct2
@cost self.work() - 50
@@ more Type2And3Butterfly3::process_inplace_dct3
@cost self.work() - 50
@@ more Type2And3Butterfly3::process_inplace_dst2
@cost self.work() - 50
@@ more Type2And3Butterfly3::process_inplace_dst3
@cost self.work() - 50
@@ more Type2And3Butterfly4::process_inplace_dct2
@cost self.work() - 50
@@ more Type2And3Butterfly4::process_inplace_dct3
@cost self.work() - 50
@@ more Type2And3Butterfly4::process_inplace_dst2
@cost self.work() - 50
@@ more Type2And3Butterfly4::process_inplace_dst3
@cost self.work() - 50
@@ more Type2And3Butterfly8::process_inplace_dct2
@cost self.work() - 50
@@ more Type2And3Butterfly8::process_inplace_dct3
@cost self.work() - 50
@@ more Type2And3Butterfly8::process_inplace_dst2
@cost self.work() - 50
@@ more Type2And3Butterfly8::process_inplace_dst3
@cost self.work() - 50
@@ more Type2And3Butterfly16::process_inplace_dct2
@cost self.work() - 50
@@ more Type2And3Butterfly16::process_inplace_dct3
@cost self.work() - 50
@@ more Type2And3Butterfly16::process_inplace_dst2
@cost self.work() - 50
@@ more Type2And3Butterfly16::process_inplace_dst3
@cost self.work() - 50
@def NEW(T; w)
@@ more $T::new
@ensures
    r.work() == $w, //#cost
@enddef
@def NEWN(T)
@@ more $T::new
@ensures
    r.work() == r.slen() * (40 * r.slen() + 100) + 100 * r.slen() + 100, //#cost
@enddef
@use NEWN(Type4Naive)
@use NEWN(Dct1Naive)
@use NEWN(Dst1Naive)
@use NEWN(Dst6And7Naive)
@use NEW(Dct1ConvertToFft; inner_fft.fcost() + 100 * r.slen() + 100)
@use NEW(Dst1ConvertToFft; inner_fft.fcost() + 100 * r.slen() + 100)
@use NEW(Type2And3ConvertToFft; inner_fft.fcost() + 200 * r.slen() + 100)
@use NEW(Type4ConvertToFftOdd; inner_fft.fcost() + 200 * r.slen() + 200)
@use NEW(Dst6And7ConvertToFft; inner_fft.fcost() + 200 * r.slen() + 200)
@use NEW(Type4ConvertToType3Even; 2 * inner_dct.work() + 200 * r.slen() + 100)
@use NEW(Type2And3SplitRadix; half_dct.work() + 2 * quarter_dct.work() + 200 * r.slen() + 100)
@use NEW(MdctViaDct4; inner_dct.work() + 100 * r.slen() + 100)
@@ more Type4ConvertToFftOdd::process_dct4_with_scratch
@costwhile 0 fft_index
@costwhile 1 fft_index
@costwhile 2 fft_index
@costwhile 3 fft_index
@costwhile 4 fft_index
@@ more Type4ConvertToFftOdd::process_dst4_with_scratch
@costwhile 0 fft_index
@costwhile 1 fft_index
@costwhile 2 fft_index
@costwhile 3 fft_index
@costwhile 4 fft_index

//# the planner: every object it keeps or returns is cheap
@@ items plan
pub open spec fn cheap_dct1(m: Map<usize, Arc<dyn Dct1>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).work() <= nlogn(2000, k as int) }
pub open spec fn cheap_dst1(m: Map<usize, Arc<dyn Dst1>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).work() <= nlogn(2000, k as int) }
pub open spec fn cheap_dct23(m: Map<usize, Arc<dyn TransformType2And3>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).work() <= nlogn(1000, k as int) }
pub open spec fn cheap_dct4(m: Map<usize, Arc<dyn TransformType4>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).work() <= nlogn(1300, k as int) }
pub open spec fn cheap_dst6(m: Map<usize, Arc<dyn Dst6And7>>) -> bool { forall|k: usize| m.contains_key(k) ==> (#[trigger] m[k]).work() <= nlogn(2000, k as int) }
pub open spec fn cheap(p: DctPlanner) -> bool { cheap_dct1(p.dct1_cache@) && cheap_dst1(p.dst1_cache@) && cheap_dct23(p.dct23_cache@) && cheap_dct4(p.dct4_cache@) && cheap_dst6(p.dst6_cache@) }
@@ more DctPlanner::new
@ensures
    cheap(r), //#cost
@def KEEP(f)
@@ more DctPlanner::$f
@requires
    cheap(*old(self)), //#cost
@ensures
    cheap(*final(self)), //#cost
@enddef
@def CHEAP(f; k)
@use KEEP($f)
@ensures
    r.work() <= nlogn($k, len as int), //#cost
@enddef
@def CHEAPL(f; k)
@use CHEAP($f; $k)
@at entry
    proof { lem_plan_cost(len as int); }
@enddef
@use CHEAP(plan_dct1; 2000)
@use CHEAPL(plan_new_dct1; 2000)
@use CHEAP(plan_dst1; 2000)
@use CHEAPL(plan_new_dst1; 2000)
@use CHEAP(plan_dct2; 1000)
@use CHEAPL(plan_new_dct2; 1000)
@use CHEAPL(plan_dct2_butterfly; 1000)
@use CHEAP(plan_dct3; 1000)
@use CHEAP(plan_dst2; 1000)
@use CHEAP(plan_dst3; 1000)
@use CHEAP(plan_dct4; 1300)
@use CHEAPL(plan_new_dct4; 1300)
@use CHEAP(plan_dst4; 1300)
@use CHEAP(plan_dst6; 2000)
@use CHEAPL(plan_new_dst6; 2000)
@use CHEAP(plan_dst7; 2000)
@use CHEAP(plan_mdct; 2000)
@use CHEAPL(plan_new_mdct; 2000)
@use KEEP(plan_dct5)
@use KEEP(plan_new_dct5)
@use KEEP(plan_dst5)
@use KEEP(plan_new_dst5)
@use KEEP(plan_dct6)
@use KEEP(plan_new_dct6)
@use KEEP(plan_dct7)
@use KEEP(plan_dct8)
@use KEEP(plan_new_dct8)
@use KEEP(plan_dst8)
@use KEEP(plan_new_dst8)
