------------------------------- MODULE Robots -------------------------------
(* The robots of ct_models as trees of bodies (written by tools/mkrobots.py).  nj joints, fl floating base, par parent link of link i
   (0: base), jr/jt joint frame in its parent (rotation, translation in 1e-7 m), fr frames <<link, rotation, translation>> (the links'
   own frames first), X the pairs of frames with a coordinate transform, J the frames with a Jacobian, I link inertia in 1e-7:
   mass, centre of mass, inertia tensor (upper triangle); tm total mass.                                                             *)
EXTENDS Integers, Sequences
Bot1 ==   \* InvertedPendulum
  [nj |-> 1, fl |-> 0, par |-> <<0>>, tm |-> 18110000,
   jr |-> <<<<0, 0, 1, 0, -1, 0, 1, 0, 0>>>>,
   jt |-> <<<<0, 0, 0>>>>,
   fr |-> <<<<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<4350000, 0, 0>>>>, <<0, <<0, 0, 1, 0, -1, 0, 1, 0, 0>>, <<0, 0, 0>>>>>>,
   X |-> <<<<1, 2>>, <<1, 3>>, <<2, 1>>, <<3, 1>>, <<1, 4>>>>,
   J |-> <<2, 3>>,
   I |-> <<<<18110000, 2930000, 0, 0, 4700, 0, 0, 1559426, 0, 1645276>>>>]
Bot2 ==   \* DoubleInvertedPendulum
  [nj |-> 2, fl |-> 0, par |-> <<0, 1>>, tm |-> 20000000,
   jr |-> <<<<0, 0, 1, 0, -1, 0, 1, 0, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>>>,
   jt |-> <<<<0, 0, 0>>, <<10000000, 0, 0>>>>,
   fr |-> <<<<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<10000000, 0, 0>>>>, <<0, <<0, 0, 1, 0, -1, 0, 1, 0, 0>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<10000000, 0, 0>>>>>>,
   X |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 1>>, <<2, 1>>, <<4, 1>>, <<1, 5>>, <<1, 6>>, <<3, 2>>, <<2, 3>>>>,
   J |-> <<3, 2, 4>>,
   I |-> <<<<10000000, 5000000, 0, 0, 5000, 0, 0, 2510000, 0, 2505000>>,
          <<10000000, 5000000, 0, 0, 5000, 0, 0, 2505000, 0, 2510000>>>>]
Bot3 ==   \* HyA
  [nj |-> 6, fl |-> 0, par |-> <<0, 1, 2, 3, 4, 5>>, tm |-> 130004663,
   jr |-> <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<0, 0, -1, 0, 1, 0, 1, 0, 0>>, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<0, 1, 0, 0, 0, 1, 1, 0, 0>>>>,
   jt |-> <<<<0, 0, 0>>, <<0, 0, 1780000>>, <<1120000, 0, 0>>, <<0, 0, 3040000>>, <<1120000, 0, 0>>, <<207500, 0, 1840000>>>>,
   fr |-> <<<<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<4, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<300000, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<-2000, -3600, 30900>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<-38300, -233800, 11700>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<-23900, 61800, -255400>>>>, <<4, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<-1466000, -112500, 10200>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<4000, -26100, -231700>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<-787600, -106300, -8400>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 890000>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<560000, 0, 0>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 1520000>>>>, <<4, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<560000, 0, 0>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 920000>>>>, <<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<0, 0, 1780000>>>>, <<2, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<1120000, 0, 0>>>>, <<3, <<0, 0, -1, 0, 1, 0, 1, 0, 0>>, <<0, 0, 3040000>>>>, <<4, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<1120000, 0, 0>>>>, <<5, <<0, 1, 0, 0, 0, 1, 1, 0, 0>>, <<207500, 0, 1840000>>>>>>,
   X |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<1, 10>>, <<1, 11>>, <<1, 12>>, <<1, 13>>, <<1, 14>>, <<1, 15>>, <<1, 16>>, <<1, 17>>, <<1, 18>>, <<1, 19>>, <<3, 7>>, <<4, 7>>, <<5, 7>>, <<6, 7>>, <<7, 3>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<6, 8>>, <<7, 8>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<5, 1>>, <<6, 1>>, <<7, 1>>, <<8, 1>>, <<1, 20>>, <<1, 21>>, <<1, 22>>, <<1, 23>>, <<1, 24>>, <<1, 25>>, <<3, 2>>, <<2, 3>>, <<4, 3>>, <<3, 4>>, <<5, 4>>, <<4, 5>>, <<6, 5>>, <<5, 6>>, <<7, 6>>>>,
   J |-> <<8, 14, 7, 13, 6, 19, 12, 5, 18, 11, 4, 17, 15, 16>>,
   I |-> <<<<26880000, -1960, -30910, 1776390, 898061, -6130, -4912, 895371, 5849, 76290>>,
          <<25924191, 1131662, -233820, 38320, 390030, 55280, -228516, 858555, -27520, 513935>>,
          <<23270000, -23900, 61800, 2784560, 2023639, 540, -117153, 2098690, -37998, 103300>>,
          <<17423722, 920000, -50000, 0, 816610, 36857, -2120, 182845, -22920, 957085>>,
          <<21032000, 0, 0, 275000, 194320, -13870, -126520, 291150, -12430, 110460>>,
          <<15474750, 250000, 0, 0, 107370, 1980, 150, 32270, -8290, 92770>>>>]
Bot4 ==   \* QuadrotorWithLoad
  [nj |-> 2, fl |-> 1, par |-> <<0, 1>>, tm |-> 6250000,
   jr |-> <<<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 1, 0, 0, 0, -1, -1, 0, 0>>>>,
   jt |-> <<<<0, 0, 0>>, <<0, 0, -1000000>>>>,
   fr |-> <<<<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<7000000, 0, 0>>>>, <<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, -500000>>>>, <<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<0, 1, 0, 0, 0, -1, -1, 0, 0>>, <<0, 0, -1000000>>>>>>,
   X |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<5, 1>>, <<6, 1>>, <<1, 7>>, <<1, 8>>, <<3, 2>>, <<2, 3>>>>,
   J |-> <<4>>,
   I |-> <<<<5000000, 0, 0, 0, 300000, 0, 0, 500000, 0, 300000>>,
          <<250000, 0, 0, -500000, 208, 0, 0, 10, 0, 208>>,
          <<1000000, 3500000, 0, 0, 40840, 0, 0, 40840, 0, 25>>>>]
Bot5 ==   \* HyQ
  [nj |-> 12, fl |-> 1, par |-> <<0, 1, 2, 0, 4, 5, 0, 7, 8, 0, 10, 11>>, tm |-> 833010000,
   jr |-> <<<<0, 0, -1, 0, -1, 0, -1, 0, 0>>, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<1, 0, 0, 0, 0, 1, 0, -1, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, -1, 0, -1, 0, -1, 0, 0>>, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<1, 0, 0, 0, 0, 1, 0, -1, 0>>, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>>>,
   jt |-> <<<<3735000, 2070000, 0>>, <<800000, 0, 0>>, <<3500000, 0, 0>>, <<3735000, -2070000, 0>>, <<800000, 0, 0>>, <<3500000, 0, 0>>, <<-3735000, 2070000, 0>>, <<800000, 0, 0>>, <<3500000, 0, 0>>, <<-3735000, -2070000, 0>>, <<800000, 0, 0>>, <<3500000, 0, 0>>>>,
   fr |-> <<<<0, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<4, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<7, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<8, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<9, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<10, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<11, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<12, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, 0, 0>>>>, <<1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<430000, 0, 1690000>>>>, <<4, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<430000, 0, -1690000>>>>, <<7, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<430000, 0, -1690000>>>>, <<10, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<430000, 0, 1690000>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1510000, -260000, 0>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1510000, -260000, 0>>>>, <<8, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1510000, 260000, 0>>>>, <<11, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1510000, 260000, 0>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1250000, 0, 0>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1250000, 10000, 0>>>>, <<9, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1250000, -10000, 0>>>>, <<12, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<1254000, -5000, 0>>>>, <<3, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3300000, 0, 0>>>>, <<6, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3300000, 0, 0>>>>, <<9, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3300000, 0, 0>>>>, <<12, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3300000, 0, 0>>>>, <<0, <<0, 0, -1, 0, -1, 0, -1, 0, 0>>, <<3735000, 2070000, 0>>>>, <<0, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<3735000, -2070000, 0>>>>, <<0, <<0, 0, -1, 0, -1, 0, -1, 0, 0>>, <<-3735000, 2070000, 0>>>>, <<0, <<0, 0, 1, 0, 1, 0, -1, 0, 0>>, <<-3735000, -2070000, 0>>>>, <<1, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<800000, 0, 0>>>>, <<4, <<1, 0, 0, 0, 0, 1, 0, -1, 0>>, <<800000, 0, 0>>>>, <<7, <<1, 0, 0, 0, 0, -1, 0, 1, 0>>, <<800000, 0, 0>>>>, <<10, <<1, 0, 0, 0, 0, 1, 0, -1, 0>>, <<800000, 0, 0>>>>, <<2, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3500000, 0, 0>>>>, <<5, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3500000, 0, 0>>>>, <<8, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3500000, 0, 0>>>>, <<11, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<3500000, 0, 0>>>>>>,
   X |-> <<<<1, 2>>, <<1, 5>>, <<1, 8>>, <<1, 11>>, <<1, 3>>, <<1, 6>>, <<1, 9>>, <<1, 12>>, <<1, 4>>, <<1, 7>>, <<1, 10>>, <<1, 13>>, <<2, 1>>, <<5, 1>>, <<8, 1>>, <<11, 1>>, <<3, 1>>, <<6, 1>>, <<9, 1>>, <<12, 1>>, <<4, 1>>, <<7, 1>>, <<10, 1>>, <<13, 1>>, <<1, 14>>, <<1, 15>>, <<1, 16>>, <<1, 17>>, <<1, 18>>, <<1, 19>>, <<1, 20>>, <<1, 21>>, <<1, 22>>, <<1, 23>>, <<1, 24>>, <<1, 25>>, <<26, 4>>, <<27, 7>>, <<28, 10>>, <<29, 13>>, <<1, 26>>, <<1, 27>>, <<1, 28>>, <<1, 29>>, <<26, 1>>, <<27, 1>>, <<28, 1>>, <<29, 1>>, <<1, 30>>, <<1, 31>>, <<1, 32>>, <<1, 33>>, <<1, 34>>, <<1, 35>>, <<1, 36>>, <<1, 37>>, <<1, 38>>, <<1, 39>>, <<1, 40>>, <<1, 41>>, <<3, 2>>, <<2, 3>>, <<4, 3>>, <<3, 4>>, <<6, 5>>, <<5, 6>>, <<7, 6>>, <<6, 7>>, <<9, 8>>, <<8, 9>>, <<10, 9>>, <<9, 10>>, <<12, 11>>, <<11, 12>>, <<13, 12>>, <<12, 13>>>>,
   J |-> <<14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29>>,
   I |-> <<<<534330000, -223000, -1000, 387000, 12094880, -57100, 1908120, 55837000, 126680, 60569730>>,
          <<34400000, 426300, 0, 1693100, 1347050, -360, -227340, 1441710, -510, 110330>>,
          <<31460000, 1507400, -262500, 0, 54950, 74180, 1020, 871360, 210, 898710>>,
          <<8810000, 1254000, 5000, -1000, 4680, 0, 0, 264090, 0, 261810>>,
          <<34400000, 426300, 0, -1693100, 1347050, 360, 227340, 1441710, -510, 110330>>,
          <<31460000, 1507400, -262500, 0, 54950, 74180, 1020, 871360, 210, 898710>>,
          <<8810000, 1254000, 5000, -1000, 4680, 0, 0, 264090, 0, 261810>>,
          <<34400000, 426300, 0, -1693100, 1347050, 360, 227340, 1441710, -510, 110330>>,
          <<31460000, 1507400, 262500, 0, 54950, -74180, -1020, 871360, 210, 898710>>,
          <<8810000, 1250000, -10000, 0, 4680, 0, 0, 264090, 0, 261810>>,
          <<34400000, 426300, 0, 1693100, 1347050, -360, -227340, 1441710, -510, 110330>>,
          <<31460000, 1507400, 262500, 0, 54950, -74180, -1020, 871360, 210, 898710>>,
          <<8810000, 1254000, -5000, 1000, 4680, 0, 0, 264090, 0, 261810>>>>]
Bot == <<Bot1, Bot2, Bot3, Bot4, Bot5>>
=============================================================================
