------------------------------- MODULE Doubles ------------------------------
(* Generated by gen_doubles.py: numerals of more than 15 digits (digits, exponent), and the *)
(* shortest numeral of the double next to each of them.                                *)
EXTENDS Integers, Sequences, TLC

Doubles ==
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, -9>> :> <<<<1>>, 22>> @@
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, 0>> :> <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, 7>> @@
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, -17>> :> <<<<1>>, 0>> @@
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,5,5,5,1,1,1,5,1,2,3,1,2,5,7,8,2,7>>, -34>> :> <<<<1>>, -1>> @@
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, 7>> :> <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, 7>> @@
  <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2>>, -16>> :> <<<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2>>, -16>> @@
  <<<<1,1,5,3,0,6,6,1,9,2,2,4,5,1,7,8>>, 8>> :> <<<<1,1,5,3,0,6,6,1,9,2,2,4,5,1,7,8>>, 8>> @@
  <<<<1,2,3,4,5,6,7,8,1,2,3,4,5,6,7,8,9>>, -9>> :> <<<<1,2,3,4,5,6,7,8,1,2,3,4,5,6,7,9>>, -8>> @@
  <<<<1,2,3,4,5,6,7,8,1,2,3,4,5,6,7,9>>, -8>> :> <<<<1,2,3,4,5,6,7,8,1,2,3,4,5,6,7,9>>, -8>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7>>, -33>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7>>, -33>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8>>, 0>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, 1>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8,9>>, -19>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, -17>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8>>, 0>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,9>>, 11>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, -17>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, -17>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, 1>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,8>>, 1>> @@
  <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,9>>, 11>> :> <<<<1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,9>>, 11>> @@
  <<<<1,4,1,4,2,1,3,5,6,2,3,7,3,0,9,5,1>>, -16>> :> <<<<1,4,1,4,2,1,3,5,6,2,3,7,3,0,9,5,1>>, -16>> @@
  <<<<1,6,7,7,7,2,1,7,0,0,0,0,0,0,0,0,1>>, -9>> :> <<<<1,6,7,7,7,2,1,7>>, 0>> @@
  <<<<1,7,9,2,1,3,9,1,7,5,2,8,1,0,0,3,4>>, -19>> :> <<<<1,7,9,2,1,3,9,1,7,5,2,8,1,0,0,3,4>>, -19>> @@
  <<<<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>, 134>> :> <<<<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>, 134>> @@
  <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, 0>> :> <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,2>>, 3>> @@
  <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>, 0>> :> <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,2>>, 3>> @@
  <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,2>>, 3>> :> <<<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,2>>, 3>> @@
  <<<<1,9,8,2,0,6,0,6,1,3,3,9,4,8,8,4,8,5,3,7,3,2,9,4,6,7,9,4>>, -25>> :> <<<<1,9,8,2,0,6,0,6,1,3,3,9,4,8,8,4,9>>, -14>> @@
  <<<<1,9,8,2,0,6,0,6,1,3,3,9,4,8,8,4,9>>, -14>> :> <<<<1,9,8,2,0,6,0,6,1,3,3,9,4,8,8,4,9>>, -14>> @@
  <<<<2,1,4,7,4,8,3,6,4,7,4,9,9,9,9,9,9,9,9,9>>, -10>> :> <<<<2,1,4,7,4,8,3,6,4,7,5>>, -1>> @@
  <<<<2,2,1,6,9,1,0,6,8,4,3,4,0,0,5,1>>, -10>> :> <<<<2,2,1,6,9,1,0,6,8,4,3,4,0,0,5,1>>, -10>> @@
  <<<<2,2,1,6,9,1,0,6,8,4,3,4,0,0,5,1,0,8,4,2,9,1,1,9>>, -18>> :> <<<<2,2,1,6,9,1,0,6,8,4,3,4,0,0,5,1>>, -10>> @@
  <<<<2,2,8,9,0,3,7,8,3,9,8,1,1,6,3,0,5>>, -11>> :> <<<<2,2,8,9,0,3,7,8,3,9,8,1,1,6,3,0,5>>, -11>> @@
  <<<<2,2,8,9,0,3,7,8,3,9,8,1,1,6,3,0,5,4,7,0,4,6,6,6,1>>, -19>> :> <<<<2,2,8,9,0,3,7,8,3,9,8,1,1,6,3,0,5>>, -11>> @@
  <<<<2,3,4,7,8,1,8,4,0,3,7,9,3,2,9,1,3,9,5,2,3,1,7,9,0,3,7,5>>, -25>> :> <<<<2,3,4,7,8,1,8,4,0,3,7,9,3,2,9,1,4>>, -14>> @@
  <<<<2,3,4,7,8,1,8,4,0,3,7,9,3,2,9,1,4>>, -14>> :> <<<<2,3,4,7,8,1,8,4,0,3,7,9,3,2,9,1,4>>, -14>> @@
  <<<<2,3,4,8,9,4,4,1,7,6,4,3,8,0,6,6,9,0,4,2,1,1,1,5,4,9,0,6>>, -25>> :> <<<<2,3,4,8,9,4,4,1,7,6,4,3,8,0,6,7>>, -13>> @@
  <<<<2,3,4,8,9,4,4,1,7,6,4,3,8,0,6,7>>, -13>> :> <<<<2,3,4,8,9,4,4,1,7,6,4,3,8,0,6,7>>, -13>> @@
  <<<<2,6,0,2,9,6,6,5,9,0,9,5,3,0,1,2,4>>, -23>> :> <<<<2,6,0,2,9,6,6,5,9,0,9,5,3,0,1,2,4>>, -23>> @@
  <<<<2,7,1,8,2,8,1,8,2,8,4,5,9,0,4,5>>, -15>> :> <<<<2,7,1,8,2,8,1,8,2,8,4,5,9,0,4,5>>, -15>> @@
  <<<<2,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,6>>, -16>> :> <<<<2,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,6>>, -16>> @@
  <<<<2,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>, -20>> :> <<<<3>>, 0>> @@
  <<<<3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4>>, -17>> :> <<<<3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4>>, -17>> @@
  <<<<3,1,2,1,5,7,1,1,3,7,1,5,0,0,8,1>>, 0>> :> <<<<3,1,2,1,5,7,1,1,3,7,1,5,0,0,8,1>>, 0>> @@
  <<<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3>>, -15>> :> <<<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3>>, -15>> @@
  <<<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3,2,3,8,4,6,2,6,4,3,3,8,3,2,7,9,5,0,2,8,8>>, -35>> :> <<<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3>>, -15>> @@
  <<<<3,2,1,3,3,9,1,2,6,8,7,1,1,0,5,2>>, -17>> :> <<<<3,2,1,3,3,9,1,2,6,8,7,1,1,0,5,2>>, -17>> @@
  <<<<3,2,1,3,3,9,1,2,6,8,7,1,1,0,5,2,1,8>>, -19>> :> <<<<3,2,1,3,3,9,1,2,6,8,7,1,1,0,5,2>>, -17>> @@
  <<<<3,2,1,8,9,7,6,9,8,5,4,1,5,4,6,7>>, -10>> :> <<<<3,2,1,8,9,7,6,9,8,5,4,1,5,4,6,7>>, -10>> @@
  <<<<3,2,1,8,9,7,6,9,8,5,4,1,5,4,6,7,0,6,1,1,0,2,3,9>>, -18>> :> <<<<3,2,1,8,9,7,6,9,8,5,4,1,5,4,6,7>>, -10>> @@
  <<<<3,2,9,3,0,8,1,3,4,6,2,1,4,5,9,6>>, -13>> :> <<<<3,2,9,3,0,8,1,3,4,6,2,1,4,5,9,6>>, -13>> @@
  <<<<3,2,9,3,0,8,1,3,4,6,2,1,4,5,9,6,0,1,0,2,1,3>>, -19>> :> <<<<3,2,9,3,0,8,1,3,4,6,2,1,4,5,9,6>>, -13>> @@
  <<<<3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3>>, -16>> :> <<<<3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3>>, -16>> @@
  <<<<4,2,9,4,9,6,7,2,9,6,0,0,0,0,0,0,1>>, -7>> :> <<<<4,2,9,4,9,6,7,2,9,6>>, 0>> @@
  <<<<4,8,2,6,9,5,8,2,4,9,2,8,4,4,2,3>>, -8>> :> <<<<4,8,2,6,9,5,8,2,4,9,2,8,4,4,2,3>>, -8>> @@
  <<<<4,8,2,6,9,5,8,2,4,9,2,8,4,4,2,3,1,4,2,6,7,1,5,8,5,0,8>>, -19>> :> <<<<4,8,2,6,9,5,8,2,4,9,2,8,4,4,2,3>>, -8>> @@
  <<<<4,8,5,1,7,4,6,1,2,7,0,5,3,4,3,5>>, -24>> :> <<<<4,8,5,1,7,4,6,1,2,7,0,5,3,4,3,5>>, -24>> @@
  <<<<4,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>, -16>> :> <<<<5>>, 0>> @@
  <<<<5,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>, -166>> :> <<<<5>>, -150>> @@
  <<<<5,9,2,1,8,9,9,6,7,3,1,7,4,7,6,5>>, -16>> :> <<<<5,9,2,1,8,9,9,6,7,3,1,7,4,7,6,5>>, -16>> @@
  <<<<5,9,2,1,8,9,9,6,7,3,1,7,4,7,6,5,2,8,8>>, -19>> :> <<<<5,9,2,1,8,9,9,6,7,3,1,7,4,7,6,5>>, -16>> @@
  <<<<6,1,6,1,7,5,6,3,2,7,2,0,5,9,9,9,9,2,3,5,3,5>>, -19>> :> <<<<6,1,6,1,7,5,6,3,2,7,2,0,6>>, -10>> @@
  <<<<6,3,1,3,1,1,2,8,6,5,2,3,7,8,5,4>>, 1>> :> <<<<6,3,1,3,1,1,2,8,6,5,2,3,7,8,5,4>>, 1>> @@
  <<<<6,4,6,3,8,5,9,7,3,8,7,7,6,9,1,8,9,6,6,3,2,3,1,3,7,2,8,3,3,2,5>>, -25>> :> <<<<6,4,6,3,8,5,9,7,3,8,7,7,6,9,1,9>>, -10>> @@
  <<<<6,4,6,3,8,5,9,7,3,8,7,7,6,9,1,9>>, -10>> :> <<<<6,4,6,3,8,5,9,7,3,8,7,7,6,9,1,9>>, -10>> @@
  <<<<6,5,7,0,0,3,2,5,9,4,8,7,5,9,5,5,7>>, -19>> :> <<<<6,5,7,0,0,3,2,5,9,4,8,7,5,9,5,6>>, -18>> @@
  <<<<6,5,7,0,0,3,2,5,9,4,8,7,5,9,5,6>>, -18>> :> <<<<6,5,7,0,0,3,2,5,9,4,8,7,5,9,5,6>>, -18>> @@
  <<<<6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6>>, -16>> :> <<<<6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6>>, -16>> @@
  <<<<7,4,0,2,2,2,1,1,6,2,0,5,5,9,1,3>>, -16>> :> <<<<7,4,0,2,2,2,1,1,6,2,0,5,5,9,1,3>>, -16>> @@
  <<<<7,4,0,2,2,2,1,1,6,2,0,5,5,9,1,3,0,7,2,9,1,9,1,1,1>>, -25>> :> <<<<7,4,0,2,2,2,1,1,6,2,0,5,5,9,1,3>>, -16>> @@
  <<<<7,4,6,8,0,2,0,4,0,4,3,0,6,4,2,4>>, -22>> :> <<<<7,4,6,8,0,2,0,4,0,4,3,0,6,4,2,4>>, -22>> @@
  <<<<7,6,5,3,5,0,8,8,3,0,5,9,4,1,9,0,6,1,2,8,2,8>>, -19>> :> <<<<7,6,5,3,5,0,8,8,3,0,5,9,4,1,9,1>>, -13>> @@
  <<<<7,6,5,3,5,0,8,8,3,0,5,9,4,1,9,1>>, -13>> :> <<<<7,6,5,3,5,0,8,8,3,0,5,9,4,1,9,1>>, -13>> @@
  <<<<7,7,2,9,3,5,5,5,0,4,9,7,4,1,5,3,5,7,9>>, -19>> :> <<<<7,7,2,9,3,5,5,5,0,4,9,7,4,1,5,4>>, -16>> @@
  <<<<7,7,2,9,3,5,5,5,0,4,9,7,4,1,5,4>>, -16>> :> <<<<7,7,2,9,3,5,5,5,0,4,9,7,4,1,5,4>>, -16>> @@
  <<<<7,7,4,6,3,7,7,8,0,8,2,6,2,5,1,6,8,5,0,8,5>>, -19>> :> <<<<7,7,4,6,3,7,7,8,0,8,2,6,2,5,1,7>>, -14>> @@
  <<<<7,7,4,6,3,7,7,8,0,8,2,6,2,5,1,7>>, -14>> :> <<<<7,7,4,6,3,7,7,8,0,8,2,6,2,5,1,7>>, -14>> @@
  <<<<8,5,3,2,0,6,0,0,7,8,5,4,1,8,2,6>>, -7>> :> <<<<8,5,3,2,0,6,0,0,7,8,5,4,1,8,2,6>>, -7>> @@
  <<<<8,5,3,2,0,6,0,0,7,8,5,4,1,8,2,6,0,0,9,7,5,0,3,6,6,2,1,0,9,3,7,5>>, -23>> :> <<<<8,5,3,2,0,6,0,0,7,8,5,4,1,8,2,6>>, -7>> @@
  <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,1>>, 0>> :> <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,1>>, 0>> @@
  <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>, 0>> :> <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>, 0>> @@
  <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,3>>, 0>> :> <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>, 0>> @@
  <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,5>>, 0>> :> <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,6>>, 0>> @@
  <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,6>>, 0>> :> <<<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,6>>, 0>> @@
  <<<<9,0,5,0,9,4,7,2,6,7,9,8,3,0,0,0,5,3,2,6,0,9,5,9,4>>, -25>> :> <<<<9,0,5,0,9,4,7,2,6,7,9,8,3>>, -13>> @@
  <<<<9,2,1,7,9,7,6,0,4,7,5,4,7,6,9,6>>, 6>> :> <<<<9,2,1,7,9,7,6,0,4,7,5,4,7,6,9,6>>, 6>> @@
  <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, 0>> :> <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,6>>, 3>> @@
  <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, 0>> :> <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,6>>, 3>> @@
  <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,6>>, 3>> :> <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,6>>, 3>> @@
  <<<<9,8,1,9,7,1,5,0,1,8,6,6,6,0,5,4,8,2,0,6,4,1,8,7,5,2,6,7,0,2,9>>, -25>> :> <<<<9,8,1,9,7,1,5,0,1,8,6,6,6,0,5,5>>, -10>> @@
  <<<<9,8,1,9,7,1,5,0,1,8,6,6,6,0,5,5>>, -10>> :> <<<<9,8,1,9,7,1,5,0,1,8,6,6,6,0,5,5>>, -10>> @@
  <<<<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>, -16>> :> <<<<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>, -16>> @@
  <<<<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>, -17>> :> <<<<1>>, 0>>
LongNumerals == DOMAIN Doubles
=============================================================================
