------------------------------ MODULE Security ------------------------------
(* The relation between dimension, noise (log10 of the deviation, in          *)
(* millionths) and security level (thousandths of a bit) of binary-key LWE.   *)
EXTENDS Integers, Sequences

(* the region for which the estimate was validated; "clearly" keeps away from the rounding of its border *)
InRegion(d, l, m) == /\ d >= 368 /\ d <= 2048 /\ l >= 78000 + m /\ l <= 130000 - m
                     \* above about 1472 dimensions the least possible noise already gives more security
                     /\ (568 * d) \div 10 - l <= 3515 - m - 10
OutRegion(d, l, m) == \/ d < 368 \/ d > 2048 \/ l < 78000 - m \/ l > 130000 + m
                      \/ (567 * d) \div 10 - l >= 3515 + m + 300
Refused(e) == e.ok = 0 /\ e.same = 1 /\ e.out = 1 /\ e.dims[1] = "dimension"
Tolerance == 100           \* thousandths of a bit: the documented maximum error of the fit is 0.11 %
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
