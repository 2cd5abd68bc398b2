----------------------------- MODULE SM2Curves -----------------------------
(***************************************************************************)
(* Domain parameters: the recommended curve of GB/T 32918.5 and some small *)
(* curves of prime order (a = p - 3, b # 0) on which the exceptional cases *)
(* of the algorithms (r = 0, r + k = n, s = 0, ...) actually occur.        *)
(***************************************************************************)
EXTENDS EC

SM2Curve ==
   [p |-> <<255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255, 255,
      255, 255, 255>>,
    a |-> <<255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255, 255,
      255, 255, 252>>,
    b |-> <<40, 233, 250, 158, 157, 159, 94, 52, 77, 90, 158, 75, 207, 101, 9,
      167, 243, 151, 137, 245, 21, 171, 143, 146, 221, 188, 189, 65, 77, 148,
      14, 147>>,
    n |-> <<255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 114, 3, 223, 107, 33, 198, 5, 43, 83, 187, 244, 9, 57,
      213, 65, 35>>,
    gx |-> <<50, 196, 174, 44, 31, 25, 129, 25, 95, 153, 4, 70, 106, 57, 201,
      148, 143, 227, 11, 191, 242, 102, 11, 225, 113, 90, 69, 137, 51, 76,
      116, 199>>,
    gy |-> <<188, 55, 54, 162, 244, 246, 119, 156, 89, 189, 206, 227, 107,
      105, 33, 83, 208, 169, 135, 124, 198, 42, 71, 64, 2, 223, 50, 229, 33,
      57, 240, 160>>]

ToyCurves == <<
   [p |-> <<11>>,
    a |-> <<8>>,
    b |-> <<10>>,
    n |-> <<7>>,
    gx |-> <<2>>,
    gy |-> <<1>>],
   [p |-> <<23>>,
    a |-> <<20>>,
    b |-> <<15>>,
    n |-> <<17>>,
    gx |-> <<1>>,
    gy |-> <<6>>],
   [p |-> <<13>>,
    a |-> <<10>>,
    b |-> <<1>>,
    n |-> <<19>>,
    gx |-> <<>>,
    gy |-> <<1>>],
   [p |-> <<31>>,
    a |-> <<28>>,
    b |-> <<15>>,
    n |-> <<29>>,
    gx |-> <<3>>,
    gy |-> <<8>>],
   [p |-> <<107>>,
    a |-> <<104>>,
    b |-> <<5>>,
    n |-> <<101>>,
    gx |-> <<1>>,
    gy |-> <<18>>],
   [p |-> <<229>>,
    a |-> <<226>>,
    b |-> <<4>>,
    n |-> <<223>>,
    gx |-> <<>>,
    gy |-> <<2>>],
   [p |-> <<3, 251>>,
    a |-> <<3, 248>>,
    b |-> <<15>>,
    n |-> <<3, 209>>,
    gx |-> <<>>,
    gy |-> <<228>>],
   [p |-> <<1, 1>>,
    a |-> <<254>>,
    b |-> <<9>>,
    n |-> <<1, 15>>,
    gx |-> <<>>,
    gy |-> <<3>>] >>

\* curve number c: 0 is SM2
Curve(c) == IF c = 0 THEN SM2Curve ELSE ToyCurves[c]
===========================================================================
