(* The facts about rounded multiplication, division and square root that the verifier uses (MULFACTS, DIVFACTS in
   vc/sym.py, SQRTFACTS in vc/libm.py) and that the SMT solver does not prove for the library's formats within the time
   limit of tools/selftest.py, proved with Flocq for every binary format with gradual underflow.
     MULFACTS  "a <= 1 => r <= b" etc.       mul_le_one, mul_ge_one
     DIVFACTS  "er = sm or sm - 1"           div_exponent
               "a <= b => r <= 1" etc.       div_le_one, div_ge_one, div_lt_one, div_gt_one
     SQRTFACTS                               sqrt_above, sqrt_below
   coqc lemmas/RoundingFacts.v checks them. *)
From Coq Require Import ZArith Reals Lra Lia Psatz.
From Flocq Require Import Core.
Open Scope R_scope.

Section Facts.
Variables emin prec : Z.
Hypothesis Hprec : (1 < prec)%Z.
Local Instance prec_gt : Prec_gt_0 prec. Proof. unfold Prec_gt_0; lia. Qed.
Notation fexp := (FLT_exp emin prec).
Notation format := (generic_format radix2 fexp).
Notation rnd := (round radix2 fexp ZnearestE).

(* multiplication by a factor at most one does not increase, by one at least one does not decrease *)
Theorem mul_le_one : forall a b, 0 <= a <= 1 -> 0 <= b -> format b -> rnd (a * b) <= b.
Proof.
intros a b Ha Hb Fb.
rewrite <- (round_generic radix2 fexp ZnearestE b Fb) at 2.
apply round_le; try typeclasses eauto. nra.
Qed.
Theorem mul_ge_one : forall a b, 1 <= a -> 0 <= b -> format b -> b <= rnd (a * b).
Proof.
intros a b Ha Hb Fb.
rewrite <- (round_generic radix2 fexp ZnearestE b Fb) at 1.
apply round_le; try typeclasses eauto. nra.
Qed.


Hypothesis Hemin : (emin <= - prec)%Z.

Lemma one_format : format 1.
Proof. change 1 with (bpow radix2 0). apply generic_format_bpow. unfold FLT_exp. lia. Qed.

Theorem div_le_one : forall a b, 0 <= a <= b -> 0 < b -> rnd (a / b) <= 1.
Proof.
intros a b Ha Hb.
rewrite <- (round_generic radix2 fexp ZnearestE 1 one_format).
apply round_le; try typeclasses eauto.
apply Rmult_le_reg_r with b; [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l; lra.
Qed.

Theorem div_ge_one : forall a b, 0 < b <= a -> 1 <= rnd (a / b).
Proof.
intros a b Ha.
rewrite <- (round_generic radix2 fexp ZnearestE 1 one_format) at 1.
apply round_le; try typeclasses eauto.
apply Rmult_le_reg_r with b; [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l; lra.
Qed.

Lemma gap_below : forall b, 0 < b -> format b -> b * bpow radix2 (- prec) <= b - pred radix2 fexp b.
Proof.
intros b Hb Fb.
rewrite pred_eq_pos by lra. unfold pred_pos.
case Req_bool_spec; intros H.
- set (e := mag radix2 b) in *.
  replace (b - (b - bpow radix2 (fexp (e - 1)))) with (bpow radix2 (fexp (e - 1))) by ring.
  rewrite H at 1. rewrite <- bpow_plus. apply bpow_le. unfold FLT_exp. lia.
- replace (b - (b - ulp radix2 fexp b)) with (ulp radix2 fexp b) by ring.
  generalize (ulp_FLT_gt radix2 emin prec b). rewrite Rabs_pos_eq by lra. lra.
Qed.

Lemma pred_one : pred radix2 fexp 1 = 1 - bpow radix2 (- prec).
Proof.
change 1 with (bpow radix2 0) at 1. rewrite pred_bpow. simpl (bpow radix2 0).
f_equal. f_equal. unfold FLT_exp. lia.
Qed.

Theorem div_lt_one : forall a b, 0 <= a < b -> format a -> format b -> rnd (a / b) < 1.
Proof.
intros a b Hab Fa Fb.
assert (Hb : 0 < b) by lra.
assert (Hp : a <= pred radix2 fexp b) by (apply pred_ge_gt; try typeclasses eauto; tauto).
assert (Hg := gap_below b Hb Fb).
assert (Hq : a / b <= pred radix2 fexp 1).
{ rewrite pred_one. apply Rmult_le_reg_r with b; [lra|].
  unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. nra. }
apply Rle_lt_trans with (pred radix2 fexp 1).
- rewrite <- (round_generic radix2 fexp ZnearestE (pred radix2 fexp 1)).
  apply round_le; try typeclasses eauto. exact Hq.
  apply generic_format_pred; try typeclasses eauto. apply one_format.
- apply pred_lt_id. lra.
Qed.

Lemma succ_one : succ radix2 fexp 1 = 1 + bpow radix2 (1 - prec).
Proof.
rewrite succ_eq_pos by lra. f_equal. change 1 with (bpow radix2 0). rewrite ulp_bpow. f_equal. unfold FLT_exp. lia.
Qed.

Theorem div_gt_one : forall a b, 0 < b < a -> format a -> format b -> 1 < rnd (a / b).
Proof.
intros a b Hab Fa Fb.
assert (Hp : succ radix2 fexp b <= a) by (apply succ_le_lt; try typeclasses eauto; tauto).
rewrite succ_eq_pos in Hp by lra.
assert (Hu := ulp_FLT_gt radix2 emin prec b). rewrite Rabs_pos_eq in Hu by lra.
assert (Hq : 1 + bpow radix2 (- prec) < a / b).
{ apply Rmult_lt_reg_r with b; [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. nra. }
apply Rlt_le_trans with (succ radix2 fexp 1).
- apply succ_gt_id. lra.
- apply round_N_ge_midp; try typeclasses eauto.
  apply generic_format_succ; try typeclasses eauto. apply one_format.
  rewrite pred_succ; try typeclasses eauto. 2: apply one_format.
  rewrite succ_one.
  replace (bpow radix2 (1 - prec)) with (2 * bpow radix2 (- prec)). lra.
  unfold Zminus. rewrite bpow_plus. simpl (bpow radix2 1). lra.
Qed.

(* the quotient of two normal numbers of exponents ea and eb has exponent ea - eb - 1 or ea - eb, when that is normal *)
Theorem div_exponent : forall a b ea eb, format a -> format b ->
  bpow radix2 ea <= a < bpow radix2 (ea + 1) -> bpow radix2 eb <= b < bpow radix2 (eb + 1) ->
  (emin + prec - 1 <= ea)%Z ->
  (emin + prec <= ea - eb)%Z ->
  bpow radix2 (ea - eb - 1) <= rnd (a / b) < bpow radix2 (ea - eb + 1).
Proof.
intros a b ea eb Fa Fb Ha Hb Hea He.
assert (P := bpow_gt_0 radix2 eb). assert (Pa := bpow_gt_0 radix2 ea).
assert (Hlow : bpow radix2 (ea - eb - 1) <= a / b).
{ apply Rmult_le_reg_r with b; [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. rewrite Rmult_1_r.
  apply Rle_trans with (bpow radix2 (ea - eb - 1) * bpow radix2 (eb + 1)).
  apply Rmult_le_compat_l. apply bpow_ge_0. lra.
  rewrite <- bpow_plus. replace (ea - eb - 1 + (eb + 1))%Z with ea by ring. lra. }
assert (F1 : format (bpow radix2 (ea - eb - 1))).
{ apply generic_format_bpow. unfold FLT_exp. lia. }
assert (F2 : format (bpow radix2 (ea - eb + 1))).
{ apply generic_format_bpow. unfold FLT_exp. lia. }
assert (F3 : format (bpow radix2 (ea + 1))).
{ apply generic_format_bpow. unfold FLT_exp. lia. }
assert (Hup : a / b <= pred radix2 fexp (bpow radix2 (ea - eb + 1))).
{ assert (Hp : a <= pred radix2 fexp (bpow radix2 (ea + 1))) by (apply pred_ge_gt; try typeclasses eauto; tauto).
  rewrite pred_bpow in Hp |- *.
  replace (fexp (ea + 1)) with (ea + 1 - prec)%Z in Hp by (unfold FLT_exp; lia).
  replace (fexp (ea - eb + 1)) with (ea - eb + 1 - prec)%Z by (unfold FLT_exp; lia).
  apply Rmult_le_reg_r with b; [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. rewrite Rmult_1_r.
  assert (E1 : bpow radix2 (ea - eb + 1) * bpow radix2 eb = bpow radix2 (ea + 1)) by
    (rewrite <- bpow_plus; f_equal; ring).
  assert (E2 : bpow radix2 (ea - eb + 1 - prec) * bpow radix2 eb = bpow radix2 (ea + 1 - prec)) by
    (rewrite <- bpow_plus; f_equal; ring).
  assert (0 <= bpow radix2 (ea - eb + 1) - bpow radix2 (ea - eb + 1 - prec)).
  { assert (bpow radix2 (ea - eb + 1 - prec) <= bpow radix2 (ea - eb + 1)) by (apply bpow_le; lia). lra. }
  nra. }
split.
- rewrite <- (round_generic radix2 fexp ZnearestE _ F1). apply round_le; try typeclasses eauto. exact Hlow.
- apply Rle_lt_trans with (pred radix2 fexp (bpow radix2 (ea - eb + 1))).
  + rewrite <- (round_generic radix2 fexp ZnearestE (pred radix2 fexp (bpow radix2 (ea - eb + 1)))).
    apply round_le; try typeclasses eauto. exact Hup.
    apply generic_format_pred; try typeclasses eauto. exact F2.
  + apply pred_lt_id. generalize (bpow_gt_0 radix2 (ea - eb + 1)). lra.
Qed.

Theorem sqrt_above : forall x, 1 <= x -> format x -> 1 <= rnd (sqrt x) <= x.
Proof.
intros x H Fx.
assert (1 <= sqrt x) by (rewrite <- sqrt_1; apply sqrt_le_1; lra).
assert (sqrt x <= x) by (rewrite <- (sqrt_sqrt x) at 2 by lra; nra).
split.
- rewrite <- (round_generic radix2 fexp ZnearestE 1 one_format) at 1. apply round_le; try typeclasses eauto. lra.
- rewrite <- (round_generic radix2 fexp ZnearestE x Fx) at 2. apply round_le; try typeclasses eauto. lra.
Qed.

Theorem sqrt_below : forall x, 0 <= x <= 1 -> format x -> x <= rnd (sqrt x) <= 1.
Proof.
intros x H Fx.
assert (0 <= sqrt x) by apply sqrt_pos.
assert (sqrt x <= 1) by (rewrite <- sqrt_1; apply sqrt_le_1; lra).
assert (x <= sqrt x) by (rewrite <- (sqrt_sqrt x) at 1 by lra; nra).
split.
- rewrite <- (round_generic radix2 fexp ZnearestE x Fx) at 1. apply round_le; try typeclasses eauto. lra.
- rewrite <- (round_generic radix2 fexp ZnearestE 1 one_format). apply round_le; try typeclasses eauto. lra.
Qed.
End Facts.

(* the hypotheses hold for binary32, binary64 and the x87 extended format *)
Definition f32 := (div_exponent (-149) 24 ltac:(lia), div_lt_one (-149) 24 ltac:(lia) ltac:(lia)).
Definition f64 := (div_exponent (-1074) 53 ltac:(lia), div_lt_one (-1074) 53 ltac:(lia) ltac:(lia)).
Definition f80 := (div_exponent (-16445) 64 ltac:(lia), div_lt_one (-16445) 64 ltac:(lia) ltac:(lia)).
Print Assumptions div_exponent.
