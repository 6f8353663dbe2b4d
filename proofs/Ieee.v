(* The arithmetic axioms of the Verus preludes, proved over Flocq's binary64.

   Reading:  val x  is  B2R x,   fin x  is  is_finite x,   rnd  is rounding to nearest even
   onto the binary64 grid (unbounded above),  big = 2^1000,  tiny = 2^-1021,  ulp = 2^-53.
   What stays trusted is that the doubles of rustc are these numbers and its operations are
   Bplus, Bminus, Bmult, Bdiv, Bopp and Bcompare. *)
Require Import ZArith Reals Psatz Lia Bool.
From Flocq Require BinarySingleNaN.
From Flocq Require Import Core Binary Bits Plus_error Relative Sterbenz Pff2Flocq.
Open Scope R_scope.

Definition prec := 53%Z.
Definition emax := 1024%Z.
Definition emin := (-1074)%Z.
Definition f64 := binary64.
Global Instance Hprec : FLX.Prec_gt_0 prec. Proof. now compute. Qed.
Notation fexp := (FLT_exp emin prec).
Notation format := (generic_format radix2 fexp).
Definition rnd (x : R) : R := round radix2 fexp ZnearestE x.
Definition val (x : f64) : R := B2R prec emax x.
Definition fin (x : f64) : Prop := is_finite prec emax x = true.
Definition nan (x : f64) : Prop := is_nan prec emax x = true.
Definition big := bpow radix2 1000.
Definition tiny := bpow radix2 (-1021).
Definition ulp53 := bpow radix2 (-53).
Definition inrange (x : R) := - big <= x <= big.

Definition add := b64_plus BinarySingleNaN.mode_NE.
Definition sub := b64_minus BinarySingleNaN.mode_NE.
Definition mul := b64_mult BinarySingleNaN.mode_NE.
Definition div := b64_div BinarySingleNaN.mode_NE.
Definition opp := b64_opp.
Definition cmp := b64_compare.
Definition ltb x y := match cmp x y with Some Lt => true | _ => false end.
Definition leb x y := match cmp x y with Some Lt => true | Some Eq => true | _ => false end.
Definition eqb x y := match cmp x y with Some Eq => true | _ => false end.
Definition gtb x y := ltb y x.
Definition geb x y := leb y x.
Definition neb x y := negb (eqb x y).

Lemma fexp_is : forall m, round radix2 (SpecFloat.fexp prec emax) (BinarySingleNaN.round_mode BinarySingleNaN.mode_NE) m = rnd m.
Proof. intros m. unfold rnd. reflexivity. Qed.

Lemma val_format : forall x : f64, format (val x).
Proof. intros x. exact (generic_format_B2R prec emax x). Qed.

Theorem ax_rnd_mono : forall x y, x <= y -> rnd x <= rnd y.
Proof. intros x y H. apply round_le; auto with typeclass_instances. Qed.
Theorem ax_rnd_zero : rnd 0 = 0.
Proof. apply round_0; auto with typeclass_instances. Qed.
Theorem ax_rnd_neg : forall x, rnd (- x) = - rnd x.
Proof. intros x. apply round_NE_opp. Qed.
Theorem ax_rnd_float : forall x : f64, rnd (val x) = val x.
Proof. intros x. apply round_generic; auto with typeclass_instances. apply val_format. Qed.
Theorem ax_rnd_idem : forall x, rnd (rnd x) = rnd x.
Proof. intros x. apply round_generic; auto with typeclass_instances. apply generic_format_round; auto with typeclass_instances. Qed.

Lemma fmt_bpow : forall e, (emin <= e)%Z -> format (bpow radix2 e).
Proof. intros e He. apply generic_format_bpow. unfold FLT_exp, emin, prec in *. lia. Qed.

(* k * 2^e with a short k is on the grid *)
Lemma fmt_scaled : forall k e, (Z.abs k <= 9007199254740992)%Z -> (-1074 <= e)%Z -> format (IZR k * bpow radix2 e).
Proof.
intros k e Hk He.
destruct (Z.eq_dec (Z.abs k) 9007199254740992) as [E|N].
- assert (format (bpow radix2 (53 + e))) by (apply fmt_bpow; unfold emin; lia).
  rewrite bpow_plus in H.
  assert (B : bpow radix2 53 = 9007199254740992) by (compute; reflexivity).
  rewrite B in H.
  destruct (Z.abs_eq_or_opp k) as [P|P]; rewrite E in P.
  + rewrite <- P. exact H.
  + assert (K : k = (- 9007199254740992)%Z) by lia. rewrite K.
    replace (IZR (-9007199254740992) * bpow radix2 e) with (- (9007199254740992 * bpow radix2 e)) by ring.
    apply generic_format_opp. exact H.
- apply generic_format_FLT. exists (Float radix2 k e); unfold F2R; simpl; auto.
  unfold emin, prec. change (2 ^ 53)%Z with 9007199254740992%Z. lia.
Qed.

Theorem ax_rnd_int : forall k, (-9007199254740992 <= k <= 9007199254740992)%Z -> rnd (IZR k) = IZR k.
Proof.
intros k H. apply round_generic; auto with typeclass_instances.
replace (IZR k) with (IZR k * bpow radix2 0) by (simpl; ring).
apply fmt_scaled; lia.
Qed.
Theorem ax_rnd_half : forall k, (-9007199254740992 <= k <= 9007199254740992)%Z -> rnd (IZR k / 2) = IZR k / 2.
Proof.
intros k H. apply round_generic; auto with typeclass_instances.
replace (IZR k / 2) with (IZR k * bpow radix2 (-1)) by (change (bpow radix2 (-1)) with (/ 2); reflexivity).
apply fmt_scaled; lia.
Qed.
Theorem ax_rnd_quarter : forall k, (-9007199254740992 <= k <= 9007199254740992)%Z -> rnd (IZR k / 4) = IZR k / 4.
Proof.
intros k H. apply round_generic; auto with typeclass_instances.
replace (IZR k / 4) with (IZR k * bpow radix2 (-2)) by (change (bpow radix2 (-2)) with (/ 4); reflexivity).
apply fmt_scaled; lia.
Qed.

Theorem ax_big : big > 1000000000000000000000000000000000000000000000000000000000000000000000000000000.
Proof. unfold big. apply Rlt_gt, Rlt_le_trans with (bpow radix2 300); [ compute; lra | apply bpow_le; lia ]. Qed.
Theorem ax_tiny : 0 < tiny < / 1000000000000000000000000000000000000000000.
Proof.
unfold tiny. split. apply bpow_gt_0.
change (-1021)%Z with (- (1021))%Z. rewrite bpow_opp. apply Rinv_lt_contravar.
- apply Rmult_lt_0_compat. lra. apply bpow_gt_0.
- simpl. lra.
Qed.
Theorem ax_tiny100 : tiny < / 10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.
Proof.
apply Rlt_trans with (bpow radix2 (- (400))).
- unfold tiny. apply bpow_lt. lia.
- rewrite bpow_opp. apply Rinv_lt_contravar.
  + apply Rmult_lt_0_compat. lra. apply bpow_gt_0.
  + simpl. lra.
Qed.
Theorem ax_tiny2 : 4 * tiny < / 1000000000000000000000000000000000000000000.
Proof.
unfold tiny. replace (4 * bpow radix2 (-1021)) with (bpow radix2 (- (1019))).
- rewrite bpow_opp. apply Rinv_lt_contravar.
  + apply Rmult_lt_0_compat. lra. apply bpow_gt_0.
  + simpl. lra.
- replace (bpow radix2 (- (1019))) with (bpow radix2 (2 + -1021)) by reflexivity. rewrite bpow_plus. f_equal.
Qed.

Lemma rnd_bound : forall x, inrange x -> Rabs (rnd x) < bpow radix2 1024.
Proof.
intros x [L U].
apply Rle_lt_trans with big.
- apply Rabs_le. split.
  + replace (- big) with (rnd (- big)). apply ax_rnd_mono; exact L.
    rewrite ax_rnd_neg. f_equal. apply round_generic; auto with typeclass_instances. apply fmt_bpow. unfold emin; lia.
  + replace big with (rnd big). apply ax_rnd_mono; exact U.
    apply round_generic; auto with typeclass_instances. apply fmt_bpow. unfold emin; lia.
- unfold big. apply bpow_lt. lia.
Qed.

Theorem ax_add : forall a b, fin a -> fin b -> inrange (val a + val b) -> fin (add a b) /\ val (add a b) = rnd (val a + val b).
Proof.
intros a b Fa Fb H. generalize (Bplus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 BinarySingleNaN.mode_NE a b Fa Fb).
rewrite fexp_is. fold (val a) (val b). rewrite Rlt_bool_true by (apply rnd_bound; exact H). intros (V & F & _). split; assumption.
Qed.
Theorem ax_sub : forall a b, fin a -> fin b -> inrange (val a - val b) -> fin (sub a b) /\ val (sub a b) = rnd (val a - val b).
Proof.
intros a b Fa Fb H. generalize (Bminus_correct 53 1024 eq_refl eq_refl binop_nan_pl64 BinarySingleNaN.mode_NE a b Fa Fb).
rewrite fexp_is. fold (val a) (val b). rewrite Rlt_bool_true by (apply rnd_bound; exact H). intros (V & F & _). split; assumption.
Qed.
Theorem ax_mul : forall a b, fin a -> fin b -> inrange (val a * val b) -> fin (mul a b) /\ val (mul a b) = rnd (val a * val b).
Proof.
intros a b Fa Fb H. generalize (Bmult_correct 53 1024 eq_refl eq_refl binop_nan_pl64 BinarySingleNaN.mode_NE a b).
rewrite fexp_is. fold (val a) (val b). rewrite Rlt_bool_true by (apply rnd_bound; exact H). intros (V & F & _). split.
- refine (eq_trans F _). exact (f_equal2 andb Fa Fb).
- exact V.
Qed.
Theorem ax_div : forall a b, fin a -> fin b -> val b <> 0 -> inrange (val a / val b) -> fin (div a b) /\ val (div a b) = rnd (val a / val b).
Proof.
intros a b Fa Fb N H. generalize (Bdiv_correct 53 1024 eq_refl eq_refl binop_nan_pl64 BinarySingleNaN.mode_NE a b N).
rewrite fexp_is. fold (val a) (val b). rewrite Rlt_bool_true by (apply rnd_bound; exact H). intros (V & F & _). split.
- exact (eq_trans F Fa).
- exact V.
Qed.
Theorem ax_neg : forall a, fin a -> fin (opp a) /\ val (opp a) = - val a.
Proof.
intros a Fa. split.
- refine (eq_trans (is_finite_Bopp _ _ unop_nan_pl64 a) Fa).
- exact (B2R_Bopp 53 1024 unop_nan_pl64 a).
Qed.

Lemma cmp_val : forall a b, fin a -> fin b -> cmp a b = Some (Rcompare (val a) (val b)).
Proof. intros a b Fa Fb. exact (Bcompare_correct 53 1024 a b Fa Fb). Qed.
Ltac comp Fa Fb := unfold geb, gtb, neb, leb, ltb, eqb; rewrite cmp_val by assumption;
  match goal with |- context [Rcompare ?x ?y] => destruct (Rcompare_spec x y) end; simpl; split; intros; try discriminate; try reflexivity; lra.
Theorem ax_lt : forall a b, fin a -> fin b -> (ltb a b = true <-> val a < val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.
Theorem ax_le : forall a b, fin a -> fin b -> (leb a b = true <-> val a <= val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.
Theorem ax_gt : forall a b, fin a -> fin b -> (gtb a b = true <-> val a > val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.
Theorem ax_ge : forall a b, fin a -> fin b -> (geb a b = true <-> val a >= val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.
Theorem ax_eq : forall a b, fin a -> fin b -> (eqb a b = true <-> val a = val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.
Theorem ax_ne : forall a b, fin a -> fin b -> (neb a b = true <-> val a <> val b).
Proof. intros a b Fa Fb. comp Fa Fb. Qed.

Theorem ax_fnan : forall x, nan x -> ~ fin x.
Proof. intros x. unfold nan, fin. destruct x; simpl; discriminate. Qed.
Lemma nan_cmp : forall a b, nan a \/ nan b -> cmp a b = None.
Proof. intros a b [H|H]; unfold nan in H; destruct a, b; simpl in H; try discriminate; reflexivity. Qed.
Theorem ax_nan : forall a b, nan a \/ nan b -> ltb a b = false /\ leb a b = false /\ gtb a b = false /\ geb a b = false /\ eqb a b = false /\ neb a b = true.
Proof.
intros a b H. unfold geb, gtb, neb, leb, ltb, eqb. rewrite (nan_cmp a b H).
rewrite (nan_cmp b a) by tauto. repeat split.
Qed.
Theorem ax_nf_add : forall a b, ~ fin a \/ ~ fin b -> ~ fin (add a b).
Proof.
intros a b H. unfold fin, add, b64_plus, Bplus in *. rewrite is_finite_BSN2B.
destruct a as [sa|sa| |], b as [sb|sb| |]; simpl in *; try discriminate; try (destruct (Bool.eqb sa sb); simpl; discriminate); intuition.
Qed.
Theorem ax_nf_sub : forall a b, ~ fin a \/ ~ fin b -> ~ fin (sub a b).
Proof.
intros a b H. unfold fin, sub, b64_minus, Bminus in *. rewrite is_finite_BSN2B.
destruct a as [sa|sa| |], b as [sb|sb| |]; simpl in *; try discriminate; try (destruct (Bool.eqb sa (negb sb)); simpl; discriminate); intuition.
Qed.
Theorem ax_nf_mul : forall a b, ~ fin a \/ ~ fin b -> ~ fin (mul a b).
Proof.
intros a b H. unfold fin, mul, b64_mult, Bmult in *. rewrite is_finite_BSN2B.
destruct a as [sa|sa| |], b as [sb|sb| |]; simpl in *; try discriminate; intuition.
Qed.
Theorem ax_nf_div : forall a b, ~ fin a -> ~ fin (div a b).
Proof.
intros a b H. unfold fin, div, b64_div, Bdiv in *. rewrite is_finite_BSN2B.
destruct a as [sa|sa| |], b as [sb|sb| |]; simpl in *; try discriminate; intuition.
Qed.
Lemma zero_is : forall b, fin b -> val b = 0 -> exists s, b = B754_zero 53 1024 s.
Proof.
intros b Fb Z. destruct b as [sb|sb| |sb mb eb Hb]; try (unfold fin in Fb; simpl in Fb; discriminate).
- exists sb. reflexivity.
- exfalso. unfold val, B2R in Z. apply eq_0_F2R in Z. destruct sb; discriminate.
Qed.
Theorem ax_div_zero : forall a b, fin b -> val b = 0 -> ~ fin (div a b).
Proof.
intros a b Fb Z. destruct (zero_is b Fb Z) as [s E]. subst b.
unfold fin, div, b64_div, Bdiv. rewrite is_finite_BSN2B. destruct a as [sa|sa| |]; simpl; discriminate.
Qed.

(* ---- rounding errors *)
Definition u := bpow radix2 (-53).
Lemma u_is : / 2 * bpow radix2 (- prec + 1) = u.
Proof. change (/ 2) with (bpow radix2 (-1)). rewrite <- bpow_plus. reflexivity. Qed.
Lemma err_normal : forall x, bpow radix2 (-1022) <= Rabs x -> Rabs (rnd x - x) <= Rabs x * u.
Proof.
intros x H. rewrite Rmult_comm, <- u_is. apply (relative_error_N_FLT radix2 emin prec Hprec (fun z => negb (Z.even z))). exact H.
Qed.
Theorem ax_rnd_err : forall x, x = 0 \/ Rabs x >= tiny -> Rabs (rnd x - x) <= Rabs x * u.
Proof.
intros x [H|H].
- subst x. rewrite ax_rnd_zero. rewrite Rminus_0_r, Rabs_R0. lra.
- apply err_normal. apply Rle_trans with tiny. apply bpow_le; lia. apply Rge_le, H.
Qed.
Lemma err_sum : forall x y, format x -> format y -> Rabs (rnd (x + y) - (x + y)) <= Rabs (x + y) * u.
Proof.
intros x y Fx Fy. destruct (Rle_or_lt (Rabs (x + y)) (bpow radix2 (prec + emin))) as [S|L].
- unfold rnd. rewrite round_generic; auto with typeclass_instances.
  + rewrite Rminus_diag_eq by reflexivity. rewrite Rabs_R0. apply Rmult_le_pos. apply Rabs_pos. apply bpow_ge_0.
  + apply FLT_format_plus_small; auto with typeclass_instances.
- apply err_normal. apply Rlt_le, Rle_lt_trans with (2 := L). apply bpow_le. unfold prec, emin. lia.
Qed.
Theorem ax_rnd_err_sum : forall a b : f64, Rabs (rnd (val a + val b) - (val a + val b)) <= Rabs (val a + val b) * u /\
  Rabs (rnd (val a - val b) - (val a - val b)) <= Rabs (val a - val b) * u.
Proof.
intros a b. split.
- apply err_sum; apply val_format.
- exact (err_sum (val a) (- val b) (val_format a) (generic_format_opp _ _ _ (val_format b))).
Qed.
Theorem ax_add_err : forall a b, fin a -> fin b -> inrange (val a + val b) -> Rabs (val (add a b) - (val a + val b)) <= Rabs (val a + val b) * u.
Proof. intros a b Fa Fb H. destruct (ax_add a b Fa Fb H) as [_ V]. rewrite V. apply ax_rnd_err_sum. Qed.
Theorem ax_sub_err : forall a b, fin a -> fin b -> inrange (val a - val b) -> Rabs (val (sub a b) - (val a - val b)) <= Rabs (val a - val b) * u.
Proof. intros a b Fa Fb H. destruct (ax_sub a b Fa Fb H) as [_ V]. rewrite V. apply ax_rnd_err_sum. Qed.
Theorem ulp_is : u = 11102230246251565404236316680908203125 / (10 ^ 53).
Proof. unfold u. change (bpow radix2 (-53)) with (/ 9007199254740992). field. Qed.

(* ---- the error-free transformations *)
Lemma ne_sym : forall x, (fun z => negb (Z.even z)) x = negb ((fun z => negb (Z.even z)) (- (x + 1))%Z).
Proof. intros x. simpl. rewrite Z.even_opp, Z.even_add. simpl. destruct (Z.even x); reflexivity. Qed.
Theorem ax_two_sum : forall a b : f64, let x := val a in let y := val b in
  let s := rnd (x + y) in let e := rnd (s - x) in let t := rnd (s - e) in rnd (rnd (y - e) + rnd (x - t)) = x + y - rnd (x + y).
Proof.
intros a b x y s e t.
assert (H : rnd (x + y) + rnd (rnd (x - t) + rnd (y - e)) = x + y).
{ exact (TwoSum_correct emin prec (fun z => negb (Z.even z)) ltac:(now compute) ltac:(unfold emin; lia) ne_sym x y (val_format a) (val_format b)). }
rewrite (Rplus_comm (rnd (y - e))). lra.
Qed.
Theorem ax_fast_two_sum : forall a b : f64, let x := val a in let y := val b in Rabs y <= Rabs x ->
  rnd (y + rnd (x - rnd (x + y))) = x + y - rnd (x + y).
Proof.
intros a b x y H.
assert (E : rnd (x + y) + rnd (y + rnd (x - rnd (x + y))) = x + y).
{ exact (Fast2Sum_correct emin prec (fun z => negb (Z.even z)) ltac:(now compute) ltac:(unfold emin; lia) ne_sym x y (val_format a) (val_format b) H). }
lra.
Qed.
Definition high x := let p := rnd (134217729 * x) in rnd (p - rnd (p - x)).
Definition tail x := rnd (x - high x).
Definition two_p x y := let r := rnd (x * y) in rnd (rnd (rnd (rnd (rnd (high x * high y) - r) + rnd (high x * tail y)) + rnd (tail x * high y)) + rnd (tail x * tail y)).
Lemma solid_is : 4503599627370496 * tiny = bpow radix2 (emin + 2 * prec - 1).
Proof. change 4503599627370496 with (bpow radix2 52). unfold tiny. rewrite <- bpow_plus. reflexivity. Qed.
Theorem ax_two_prod : forall a b : f64, let x := val a in let y := val b in
  x * y = 0 \/ Rabs (x * y) >= 4503599627370496 * tiny -> two_p x y = x * y - rnd (x * y).
Proof.
intros a b x y H. rewrite solid_is in H.
assert (D := proj1 (Dekker radix2 emin prec (fun z => negb (Z.even z)) ltac:(now compute) ltac:(unfold emin; lia) x y (val_format a) (val_format b) (or_introl eq_refl))).
assert (H' : x * y = 0 \/ bpow radix2 (emin + 2 * prec - 1) <= Rabs (x * y)) by (destruct H; [left; assumption | right; apply Rge_le; assumption]).
specialize (D H').
assert (C : forall z, z * (bpow radix2 (prec - Z.div2 prec) + 1) = 134217729 * z).
{ intros z. change (bpow radix2 (prec - Z.div2 prec)) with 134217728. ring. }
rewrite !C in D.
assert (HI : forall z, round radix2 fexp ZnearestE (round radix2 fexp ZnearestE (z - round radix2 fexp ZnearestE (134217729 * z)) + round radix2 fexp ZnearestE (134217729 * z)) = high z).
{ intros z. fold (rnd (134217729 * z)). unfold high.
  fold (rnd (z - rnd (134217729 * z))). fold (rnd (rnd (z - rnd (134217729 * z)) + rnd (134217729 * z))).
  replace (z - rnd (134217729 * z)) with (- (rnd (134217729 * z) - z)) by ring. rewrite ax_rnd_neg. f_equal. ring. }
rewrite !HI in D.
replace (- round radix2 fexp ZnearestE (x * y) + round radix2 fexp ZnearestE (high x * high y))
  with (round radix2 fexp ZnearestE (high x * high y) - round radix2 fexp ZnearestE (x * y)) in D by ring.
unfold two_p. unfold tail, rnd. lra.
Qed.

(* ---- scaling, nearby numbers, whole numbers *)
Theorem ax_sterbenz : forall a b : f64, 0 <= val b / 2 <= val a -> val a <= 2 * val b -> rnd (val a - val b) = val a - val b.
Proof.
intros a b H K. apply round_generic; auto with typeclass_instances.
apply sterbenz; auto with typeclass_instances; try apply val_format. lra.
Qed.
(* a double is a short whole number times a power of two *)
Lemma decompose : forall a : f64, exists m e, val a = IZR m * bpow radix2 e /\ (Z.abs m < 9007199254740992)%Z /\ (-1074 <= e)%Z.
Proof.
intros a. destruct (FLT_format_generic radix2 emin prec (val a) (val_format a)) as [[m e] E B L].
exists m, e. unfold F2R in E. simpl in *. repeat split; assumption.
Qed.
Lemma scaled : forall a : f64, val a = 0 \/ 1 <= Rabs (val a) -> forall k, (-2 <= k)%Z -> rnd (val a * bpow radix2 k) = val a * bpow radix2 k.
Proof.
intros a H k Hk. apply round_generic; auto with typeclass_instances.
destruct (decompose a) as (m & e & E & B & L). rewrite E in *.
destruct H as [H|H].
- rewrite H, Rmult_0_l. apply generic_format_0.
- rewrite Rmult_assoc, <- bpow_plus. apply fmt_scaled; try lia.
  destruct (Z_le_gt_dec (-1074) (e + k)) as [|G]; auto. exfalso.
  (* e is far below, so the value is below one *)
  rewrite Rabs_mult, (Rabs_pos_eq (bpow radix2 e)) in H by apply bpow_ge_0.
  rewrite <- abs_IZR in H.
  assert (IZR (Z.abs m) <= bpow radix2 53). { change (bpow radix2 53) with (IZR 9007199254740992). apply IZR_le. lia. }
  assert (bpow radix2 e <= bpow radix2 (-54)) by (apply bpow_le; lia).
  assert (IZR (Z.abs m) * bpow radix2 e <= bpow radix2 53 * bpow radix2 (-54)).
  { apply Rmult_le_compat; auto. apply IZR_le. lia. apply bpow_ge_0. }
  rewrite <- bpow_plus in H2. change (bpow radix2 (53 + -54)) with (/ 2) in H2. lra.
Qed.
Theorem ax_scale : forall a : f64, 1 <= Rabs (val a) -> rnd (2 * val a) = 2 * val a /\ rnd (val a * 2) = 2 * val a /\ rnd (val a / 2) = val a / 2 /\ rnd (val a / 4) = val a / 4.
Proof.
intros a H. assert (S := scaled a (or_intror H)).
assert (S1 := S 1%Z ltac:(lia)). assert (S2 := S (-1)%Z ltac:(lia)). assert (S3 := S (-2)%Z ltac:(lia)).
change (bpow radix2 1) with 2 in S1. change (bpow radix2 (-1)) with (/ 2) in S2. change (bpow radix2 (-2)) with (/ 4) in S3.
repeat split; auto; rewrite (Rmult_comm 2); auto.
Qed.
Definition flo (x : R) := IZR (Zfloor x).
Theorem ax_whole : forall a : f64, Rabs (val a) >= 4503599627370496 -> flo (val a) = val a.
Proof.
intros a H. destruct (decompose a) as (m & e & E & B & L). unfold flo. rewrite E in *.
assert (P : (0 <= e)%Z \/ e = (-1)%Z /\ False \/ (e < 0)%Z) by lia.
destruct (Z_le_gt_dec 0 e) as [G|G].
- assert (I : IZR m * bpow radix2 e = IZR (m * 2 ^ e)). { rewrite mult_IZR. f_equal. rewrite <- IZR_Zpower by exact G. reflexivity. }
  rewrite I, Zfloor_IZR. reflexivity.
- exfalso. rewrite Rabs_mult, (Rabs_pos_eq (bpow radix2 e)) in H by apply bpow_ge_0. rewrite <- abs_IZR in H.
  assert (bpow radix2 e <= / 2). { change (/ 2) with (bpow radix2 (-1)). apply bpow_le. lia. }
  assert (IZR (Z.abs m) < 9007199254740992) by (apply IZR_lt; lia).
  assert (0 <= IZR (Z.abs m)) by (apply IZR_le; lia).
  assert (0 < bpow radix2 e) by apply bpow_gt_0.
  nra.
Qed.
(* a rounded integer is whole *)
Theorem ax_rnd_whole : forall k : Z, flo (rnd (IZR k)) = rnd (IZR k).
Proof.
intros k. unfold flo. destruct (Z_le_gt_dec (Z.abs k) 9007199254740992) as [G|G].
- rewrite ax_rnd_int by lia. now rewrite Zfloor_IZR.
- assert (M : bpow radix2 53 <= Rabs (rnd (IZR k))).
  { change (bpow radix2 53) with (IZR 9007199254740992). destruct (Z_le_gt_dec 0 k).
    - assert (H : rnd (IZR 9007199254740992) <= rnd (IZR k)) by (apply ax_rnd_mono; apply IZR_le; lia).
      rewrite (ax_rnd_int 9007199254740992) in H by lia. eapply Rle_trans. exact H. apply Rle_abs.
    - assert (H : rnd (IZR k) <= rnd (IZR (-9007199254740992))) by (apply ax_rnd_mono; apply IZR_le; lia).
      rewrite (ax_rnd_int (-9007199254740992)) in H by lia. rewrite <- Rabs_Ropp. eapply Rle_trans; [|apply Rle_abs]. change (IZR (-9007199254740992)) with (- (9007199254740992)) in H. lra. }
  assert (F : format (rnd (IZR k))) by (apply generic_format_round; auto with typeclass_instances).
  set (x := rnd (IZR k)) in *. assert (X : (54 <= mag radix2 x)%Z) by (apply mag_ge_bpow; exact M).
  unfold generic_format, F2R in F. cbn in F.
  assert (C : (0 <= cexp radix2 fexp x)%Z) by (unfold cexp, FLT_exp, emin, prec; lia).
  rewrite F at 1 2. rewrite <- IZR_Zpower by exact C. rewrite <- mult_IZR. now rewrite Zfloor_IZR.
Qed.
Theorem ax_p75 : rnd 37778931862957161709568 = 37778931862957161709568.
Proof. change 37778931862957161709568 with (bpow radix2 75). apply round_generic; auto with typeclass_instances. apply fmt_bpow. unfold emin. lia. Qed.
Theorem ax_frac : forall a : f64, (rnd (val a - flo (val a)) >= / 2 <-> val a - flo (val a) >= / 2).
Proof.
intros a. assert (Half : rnd (/ 2) = / 2). { generalize (ax_rnd_half 1 ltac:(lia)). replace (IZR 1 / 2) with (/ 2) by lra. auto. }
split; intros H.
- destruct (Rle_or_lt (/ 2) (val a - flo (val a))) as [|N]; [apply Rle_ge; assumption|]. exfalso.
  assert (E : rnd (val a - flo (val a)) = val a - flo (val a)).
  { set (x := val a) in *. unfold flo in *. assert (F1 := Zfloor_lb x). assert (F2 := Zfloor_ub x).
    set (n := Zfloor x) in *.
    destruct (Z.eq_dec n 0) as [Z0|NZ].
    - rewrite Z0, Rminus_0_r. apply ax_rnd_float.
    - assert (W : (Z.abs n <= 9007199254740992)%Z \/ x = IZR n).
      { destruct (Z_le_gt_dec (Z.abs n) 9007199254740992); [left; assumption|right].
        symmetry. apply (ax_whole a). fold x. apply Rle_ge.
        assert (9007199254740993 <= Rabs (IZR n)) by (rewrite <- abs_IZR; apply IZR_le; lia).
        unfold Rabs in *. destruct (Rcase_abs x), (Rcase_abs (IZR n)); lra. }
      destruct W as [W|W].
      + apply round_generic; auto with typeclass_instances.
        assert (Fn : format (IZR n)). { replace (IZR n) with (IZR n * bpow radix2 0) by (simpl; ring). apply fmt_scaled; lia. }
        destruct (Z_le_gt_dec 0 n) as [Pn|Nn].
        * assert (1 <= IZR n) by (apply IZR_le; lia).
          apply sterbenz; auto with typeclass_instances. apply val_format. lra.
        * assert (IZR n <= -1) by (apply IZR_le; lia).
          replace (x - IZR n) with (- IZR n - - x) by ring.
          apply sterbenz; auto with typeclass_instances; try (apply generic_format_opp; auto). apply val_format. lra.
      + rewrite W, Rminus_diag_eq by reflexivity. apply ax_rnd_zero. }
  rewrite E in H. lra.
- rewrite <- Half. apply Rle_ge, ax_rnd_mono. apply Rge_le. exact H.
Qed.

(* ---- square root and hypot: the assumed facts hold of a correctly rounded one.  Off the doubles,
   where the contracts never use them, the functions are the exact real ones. *)
Definition sqrr (x : R) : R := if Rle_bool x 0 then 0 else if Req_bool (rnd x) x then rnd (sqrt x) else sqrt x.
Lemma min_pos : forall x, 0 < x -> rnd x = x -> bpow radix2 (-1074) <= x.
Proof.
intros x P F. assert (G : format x). { rewrite <- F. apply generic_format_round; auto with typeclass_instances. }
destruct (FLT_format_generic radix2 emin prec x G) as [[m e] E B L]. unfold F2R in E. simpl in *.
assert (Q : 0 < bpow radix2 e) by apply bpow_gt_0.
assert (M : (0 < m)%Z). { apply lt_IZR. apply Rmult_lt_reg_r with (bpow radix2 e). exact Q. rewrite Rmult_0_l, <- E. exact P. }
assert (M1 : 1 <= IZR m) by (apply IZR_le; lia).
assert (Le : bpow radix2 (-1074) <= bpow radix2 e) by (apply bpow_le; unfold emin in L; lia).
rewrite E. apply Rle_trans with (1 := Le). rewrite <- (Rmult_1_l (bpow radix2 e)) at 1. apply Rmult_le_compat_r; lra.
Qed.
Lemma sqrt_normal : forall x, 0 < x -> rnd x = x -> Rabs (rnd (sqrt x) - sqrt x) <= Rabs (sqrt x) * u.
Proof.
intros x P F. apply err_normal. rewrite Rabs_pos_eq by apply sqrt_pos.
apply Rle_trans with (bpow radix2 (-537)). apply bpow_le; lia.
rewrite <- (sqrt_square (bpow radix2 (-537))) by apply bpow_ge_0. apply sqrt_le_1_alt.
rewrite <- bpow_plus. apply min_pos; assumption.
Qed.
Lemma u_small : 0 < u <= / 1000.
Proof. unfold u. change (bpow radix2 (-53)) with (/ 9007199254740992). lra. Qed.
Theorem ax_sqrr : forall x, sqrr x >= 0 /\ (sqrr x = 0 -> x <= 0) /\ sqrr 0 = 0 /\
  (x >= 0 -> (1 - 2 * u) * x <= sqrr x * sqrr x <= (1 + 4 * u) * x) /\ (x >= 1 -> 1 <= sqrr x <= x).
Proof.
assert (Z : sqrr 0 = 0). { unfold sqrr. rewrite Rle_bool_true; lra. }
intros x. destruct (Rle_or_lt x 0) as [N|P].
- assert (S : sqrr x = 0). { unfold sqrr. rewrite Rle_bool_true; auto. }
  rewrite S, Z. repeat split; try lra; intros; replace x with 0 by lra; lra.
- assert (Q : sqrt x * sqrt x = x) by (apply sqrt_sqrt; lra).
  assert (W : 0 < sqrt x) by (apply sqrt_lt_R0; exact P).
  assert (U := u_small).
  assert (ONE : x >= 1 -> 1 <= sqrt x <= x). { intros H. split; nra. }
  unfold sqrr. rewrite (Rle_bool_false x 0) by exact P. rewrite (Rle_bool_true 0 0) by lra.
  destruct (Req_bool_spec (rnd x) x) as [F|NF].
  + assert (E := sqrt_normal x P F). rewrite (Rabs_pos_eq (sqrt x)) in E by lra. apply Rabs_le_inv in E.
    set (s := sqrt x) in *. set (r := rnd s) in *.
    assert (r > 0) by nra.
    assert (L : s * (1 - u) <= r) by lra. assert (G : r <= s * (1 + u)) by lra.
    assert (S0 : 0 <= s * (1 - u)) by (apply Rmult_le_pos; lra).
    assert (LL : (s * (1 - u)) * (s * (1 - u)) <= r * r) by (apply Rmult_le_compat; lra).
    assert (GG : r * r <= (s * (1 + u)) * (s * (1 + u))) by (apply Rmult_le_compat; lra).
    replace ((s * (1 - u)) * (s * (1 - u))) with (x * ((1 - u) * (1 - u))) in LL by (rewrite <- Q; ring).
    replace ((s * (1 + u)) * (s * (1 + u))) with (x * ((1 + u) * (1 + u))) in GG by (rewrite <- Q; ring).
    assert (U2 : 0 <= u * u <= u) by nra.
    repeat split; try lra.
    * apply Rle_trans with (2 := LL). rewrite Rmult_comm. apply Rmult_le_compat_l; lra.
    * apply Rle_trans with (1 := GG). rewrite (Rmult_comm (1 + 4 * u)). apply Rmult_le_compat_l; lra.
    * destruct (ONE H0) as [A B]. unfold r. replace 1 with (rnd 1). apply ax_rnd_mono; exact A. apply (ax_rnd_int 1). lia.
    * destruct (ONE H0) as [A B]. unfold r. rewrite <- F. apply ax_rnd_mono; exact B.
  + repeat split; try lra; try (intros; nra). all: intros H; destruct (ONE H); lra.
Qed.
(* a number this close to a double rounds to it *)
Lemma near_pos : forall x v, format x -> 0 < x -> Rabs (v - x) <= x * u / 4 -> rnd v = x.
Proof.
intros x v F P H.
assert (U := u_small).
destruct (round_N_pt radix2 fexp (fun z => negb (Z.even z)) v) as [Fr N]. fold (rnd v) in Fr, N.
specialize (N x F).
assert (D : Rabs (rnd v - x) <= x * u / 2).
{ replace (rnd v - x) with ((rnd v - v) + (v - x)) by ring. eapply Rle_trans. apply Rabs_triang. rewrite (Rabs_minus_sym v x) in H. rewrite (Rabs_minus_sym v x). lra. }
assert (UX : ulp radix2 fexp x > x * u).
{ assert (Q : x * u = Rabs x * bpow radix2 (- prec)) by (rewrite Rabs_pos_eq by lra; reflexivity). rewrite Q. apply ulp_FLT_gt; exact Hprec. }
apply Rabs_le_inv in D.
assert (R0 : 0 < rnd v) by nra.
destruct (Rtotal_order (rnd v) x) as [L|[L|L]]; [|exact L|].
- exfalso. assert (S := succ_le_lt radix2 fexp (rnd v) x Fr F L).
  rewrite succ_eq_pos in S by lra.
  assert (UR : ulp radix2 fexp (rnd v) > rnd v * u).
  { assert (Q : rnd v * u = Rabs (rnd v) * bpow radix2 (- prec)) by (rewrite Rabs_pos_eq by lra; reflexivity). rewrite Q. apply ulp_FLT_gt; exact Hprec. }
  nra.
- exfalso. assert (S := succ_le_lt radix2 fexp x (rnd v) F Fr L).
  rewrite succ_eq_pos in S by lra. lra.
Qed.
Theorem ax_rnd_near : forall x v, rnd x = x -> Rabs (v - x) <= Rabs x * u / 4 -> rnd v = x.
Proof.
intros a v I H. assert (F : format a). { rewrite <- I. apply generic_format_round; auto with typeclass_instances. } destruct (Rtotal_order a 0) as [L|[L|L]].
- rewrite (Rabs_left a) in H by lra.
  rewrite <- (Ropp_involutive v), ax_rnd_neg, <- (Ropp_involutive a). f_equal. apply near_pos.
  apply generic_format_opp, F. lra. rewrite Rabs_minus_sym. replace (- a - - v) with (v - a) by ring. exact H.
- rewrite L in *. rewrite Rabs_R0 in H. replace (0 * u / 4) with 0 in H by field. assert (v - 0 = 0). { destruct (Req_dec (v - 0) 0); [assumption|]. apply Rabs_pos_lt in H0. lra. }
  replace v with 0 by lra. apply ax_rnd_zero.
- rewrite (Rabs_pos_eq a) in H by lra. apply near_pos; assumption.
Qed.

Theorem ax_sqrr_unit : forall x, 0 <= x <= 1 -> 0 <= sqrr x <= 1.
Proof.
intros x [A B]. destruct (Rle_or_lt x 0) as [N|P].
- unfold sqrr. rewrite Rle_bool_true by exact N. lra.
- assert (S0 : 0 <= sqrt x) by apply sqrt_pos. assert (S1 : sqrt x <= 1). { rewrite <- sqrt_1. apply sqrt_le_1_alt. exact B. }
  unfold sqrr. rewrite (Rle_bool_false x 0) by exact P. destruct (Req_bool_spec (rnd x) x); [|lra]. split.
  + rewrite <- ax_rnd_zero. apply ax_rnd_mono. exact S0.
  + replace 1 with (rnd 1) by (apply (ax_rnd_int 1); lia). apply ax_rnd_mono. exact S1.
Qed.
Theorem sqrt_is : forall a : f64, fin a -> val a >= 0 -> fin (b64_sqrt BinarySingleNaN.mode_NE a) /\ val (b64_sqrt BinarySingleNaN.mode_NE a) = sqrr (val a).
Proof.
intros a Fa P. generalize (Bsqrt_correct 53 1024 eq_refl eq_refl unop_nan_pl64 BinarySingleNaN.mode_NE a). intros (V & F & _). split.
- refine (eq_trans F _). destruct a as [s|s| |s m e H]; try reflexivity; try discriminate Fa.
  destruct s; auto. exfalso. unfold val, B2R in P. assert (F2R (Float radix2 (cond_Zopp true (Z.pos m)) e) < 0) by (apply F2R_lt_0; reflexivity). lra.
- refine (eq_trans V _). unfold sqrr. destruct (Rle_bool_spec (val a) 0).
  + assert (V0 : val a = 0) by lra. change (rnd (sqrt (val a)) = 0). rewrite V0, sqrt_0. exact ax_rnd_zero.
  + rewrite Req_bool_true by apply ax_rnd_float. reflexivity.
Qed.

Definition grid x := Req_bool (rnd x) x.
Definition hypr (x y : R) : R := if andb (grid x) (grid y) then rnd (sqrt (x * x + y * y)) else sqrt (x * x + y * y).
Lemma hyp_ge : forall x y, Rabs x <= sqrt (x * x + y * y).
Proof. intros x y. rewrite <- sqrt_Rsqr_abs. apply sqrt_le_1_alt. unfold Rsqr. nra. Qed.
Lemma grid_abs : forall x, grid x = true -> rnd (Rabs x) = Rabs x.
Proof.
intros x G. unfold grid in G. destruct (Req_bool_spec (rnd x) x) as [E|]; try discriminate.
unfold Rabs. destruct (Rcase_abs x); auto. rewrite ax_rnd_neg, E. reflexivity.
Qed.
Lemma grid_opp : forall x, grid (- x) = grid x.
Proof.
intros x. unfold grid. rewrite ax_rnd_neg. destruct (Req_bool_spec (rnd x) x), (Req_bool_spec (- rnd x) (- x)); auto; lra.
Qed.
Lemma hyp_sum : forall x y, sqrt (x * x + y * y) <= Rabs x + Rabs y.
Proof.
intros x y. assert (X := Rabs_pos x). assert (Y := Rabs_pos y).
rewrite <- (sqrt_square (Rabs x + Rabs y)) by lra. apply sqrt_le_1_alt.
assert (Rabs x * Rabs x = x * x) by (rewrite <- Rabs_mult; apply Rabs_pos_eq; nra).
assert (Rabs y * Rabs y = y * y) by (rewrite <- Rabs_mult; apply Rabs_pos_eq; nra). nra.
Qed.
(* correctly rounded, the hypotenuse still does not exceed the sum of the sides *)
Lemma hyp_round : forall a b, 0 < b -> b <= a -> rnd a = a -> rnd b = b -> rnd (sqrt (a * a + b * b)) <= a + b.
Proof.
intros a b B AB Ga Gb. set (h := sqrt (a * a + b * b)).
assert (HH : h * h = a * a + b * b) by (apply sqrt_sqrt; nra).
assert (H0 : 0 <= h) by apply sqrt_pos.
assert (Ha : a <= h) by nra.
assert (Hs : h <= a + b / 2) by nra.
assert (Fa : format a). { rewrite <- Ga. apply generic_format_round; auto with typeclass_instances. }
assert (U : u = / 9007199254740992) by reflexivity.
destruct (Rle_or_lt (b / 2) (h * u)) as [S|L].
- (* the other side vanishes *)
  apply Rle_trans with a; [|lra]. apply round_N_le_midp; auto with typeclass_instances.
  rewrite succ_eq_pos by lra.
  assert (W := ulp_FLT_gt radix2 emin prec a). rewrite Rabs_pos_eq in W by lra.
  change (bpow radix2 (- prec)) with u in W.
  assert (B2 : b <= 6 * a * u) by nra.
  assert (h <= a + b * b / (2 * a)).
  { apply Rsqr_incr_0_var; unfold Rsqr. 
    - rewrite HH. assert (E : (a + b * b / (2 * a)) * (a + b * b / (2 * a)) = a * a + b * b + (b * b / (2 * a)) * (b * b / (2 * a))) by (field; lra). rewrite E.
      assert (0 <= (b * b / (2 * a)) * (b * b / (2 * a))) by apply Rle_0_sqr. lra.
    - assert (0 <= b * b / (2 * a)) by (apply Rmult_le_pos; [nra | apply Rlt_le, Rinv_0_lt_compat; lra]). lra. }
  assert (b * b / (2 * a) <= 18 * a * u * u).
  { apply Rmult_le_reg_r with (2 * a). lra. replace (b * b / (2 * a) * (2 * a)) with (b * b) by (field; lra). 
    apply Rle_trans with ((6 * a * u) * (6 * a * u)). apply Rmult_le_compat; lra. right. ring. }
  rewrite U in *. lra.
- destruct (error_N_FLT radix2 emin prec ltac:(reflexivity) (fun z => negb (Z.even z)) h) as (eps & eta & E1 & E2 & E3 & E4).
  change (rnd h = h * (1 + eps) + eta) in E4. rewrite E4. rewrite u_is in E1.
  assert (Bm : bpow radix2 (-1074) <= b) by (apply min_pos; assumption).
  change (bpow radix2 emin) with (bpow radix2 (-1074)) in E2.
  apply Rabs_le_inv in E1. apply Rabs_le_inv in E2.
  apply Rmult_integral in E3. destruct E3 as [E3|E3]; rewrite E3.
  + lra.
  + assert (h * eps <= h * u) by (apply Rmult_le_compat_l; lra). lra.
Qed.
Theorem ax_hypr : forall x y, hypr x y >= Rabs x /\ hypr x y >= Rabs y /\ hypr x y <= Rabs x + Rabs y /\ hypr x y = hypr (- x) (- y) /\ (y = 0 -> hypr x y = Rabs x).
Proof.
intros x y. assert (X := hyp_ge x y). assert (Y := hyp_ge y x). rewrite (Rplus_comm (y * y)) in Y. assert (S := hyp_sum x y).
assert (NEG : hypr x y = hypr (- x) (- y)). { unfold hypr. rewrite !grid_opp. replace (- x * - x + - y * - y) with (x * x + y * y) by ring. reflexivity. }
assert (AX : y = 0 -> sqrt (x * x + y * y) = Rabs x). { intros Z. rewrite Z. rewrite Rmult_0_l, Rplus_0_r. apply sqrt_Rsqr_abs. }
assert (P : hypr x y >= Rabs x /\ hypr x y >= Rabs y /\ hypr x y <= Rabs x + Rabs y /\ (y = 0 -> hypr x y = Rabs x)).
{ unfold hypr. destruct (grid x) eqn:Gx, (grid y) eqn:Gy; simpl; try (repeat split; auto; lra).
  assert (Rx := grid_abs x Gx). assert (Ry := grid_abs y Gy).
  assert (L1 : Rabs x <= rnd (sqrt (x * x + y * y))) by (rewrite <- Rx; apply ax_rnd_mono; exact X).
  assert (L2 : Rabs y <= rnd (sqrt (x * x + y * y))) by (rewrite <- Ry; apply ax_rnd_mono; exact Y).
  assert (Sx : Rabs x * Rabs x = x * x) by (rewrite <- Rabs_mult; apply Rabs_pos_eq; nra).
  assert (Sy : Rabs y * Rabs y = y * y) by (rewrite <- Rabs_mult; apply Rabs_pos_eq; nra).
  split; [lra | split; [lra | split]].
  - destruct (Req_dec (Rabs x) 0) as [Zx|Nx].
    + rewrite <- Sx, <- Sy, Zx. replace (0 * 0 + Rabs y * Rabs y) with (Rabs y * Rabs y) by ring.
      rewrite sqrt_square by apply Rabs_pos. rewrite Ry. lra.
    + destruct (Req_dec (Rabs y) 0) as [Zy|Ny].
      * rewrite <- Sx, <- Sy, Zy. replace (Rabs x * Rabs x + 0 * 0) with (Rabs x * Rabs x) by ring.
        rewrite sqrt_square by apply Rabs_pos. rewrite Rx. lra.
      * assert (0 < Rabs x) by (assert (P := Rabs_pos x); lra). assert (0 < Rabs y) by (assert (P := Rabs_pos y); lra).
        rewrite <- Sx, <- Sy. destruct (Rle_or_lt (Rabs y) (Rabs x)).
        -- apply hyp_round; auto.
        -- rewrite Rplus_comm. rewrite (Rplus_comm (Rabs x)). apply hyp_round; auto. lra.
  - intros Z. rewrite AX by exact Z. exact Rx. }
tauto.
Qed.
Theorem ax_hypr_double : forall x y, rnd x = x -> rnd y = y -> rnd (hypr x y) = hypr x y.
Proof.
intros x y X Y. unfold hypr, grid. rewrite X, Y. rewrite !Req_bool_true by reflexivity. simpl. apply ax_rnd_idem.
Qed.

(* ---- rounding to single precision (without overflow) *)
Definition sgl (x : R) : R := round radix2 (FLT_exp (-149) 24) ZnearestE x.
Theorem ax_sgl : forall x y, sgl (sgl x) = sgl x /\ (x <= y -> sgl x <= sgl y).
Proof.
intros x y. assert (FLX.Prec_gt_0 24) by now compute. split.
- apply round_generic; auto with typeclass_instances. apply generic_format_round; auto with typeclass_instances.
- intros L. apply round_le; auto with typeclass_instances.
Qed.

(* ---- literals: the doubles that rustc writes for them (nearest to the decimal) *)
Definition holds (bits : Z) (x : R) := fin (b64_of_bits bits) /\ val (b64_of_bits bits) = x.
Theorem lit_0 : holds 0 0.
Proof. split; reflexivity. Qed.
Theorem lit_half : holds 0x3fe0000000000000 (/ 2).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x3fe0000000000000)) with (IZR 4503599627370496 * bpow radix2 (-53)) by reflexivity.
change (bpow radix2 (-53)) with (/ 9007199254740992). lra.
Qed.
Theorem lit_1 : holds 0x3ff0000000000000 (1).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x3ff0000000000000)) with (IZR 4503599627370496 * bpow radix2 (-52)) by reflexivity.
change (bpow radix2 (-52)) with (/ 4503599627370496). lra.
Qed.
Theorem lit_2 : holds 0x4000000000000000 (2).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x4000000000000000)) with (IZR 4503599627370496 * bpow radix2 (-51)) by reflexivity.
change (bpow radix2 (-51)) with (/ 2251799813685248). lra.
Qed.
Theorem lit_3 : holds 0x4008000000000000 (3).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x4008000000000000)) with (IZR 6755399441055744 * bpow radix2 (-51)) by reflexivity.
change (bpow radix2 (-51)) with (/ 2251799813685248). lra.
Qed.
Theorem lit_4 : holds 0x4010000000000000 (4).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x4010000000000000)) with (IZR 4503599627370496 * bpow radix2 (-50)) by reflexivity.
change (bpow radix2 (-50)) with (/ 1125899906842624). lra.
Qed.
Theorem lit_10 : holds 0x4024000000000000 (10).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x4024000000000000)) with (IZR 5629499534213120 * bpow radix2 (-49)) by reflexivity.
change (bpow radix2 (-49)) with (/ 562949953421312). lra.
Qed.
Theorem lit_180 : holds 0x4066800000000000 (180).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x4066800000000000)) with (IZR 6333186975989760 * bpow radix2 (-45)) by reflexivity.
change (bpow radix2 (-45)) with (/ 35184372088832). lra.
Qed.
Theorem lit_split : holds 0x41a0000002000000 (134217729).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x41a0000002000000)) with (IZR 4503599660924928 * bpow radix2 (-25)) by reflexivity.
change (bpow radix2 (-25)) with (/ 33554432). lra.
Qed.
Theorem lit_pi : holds 0x400921fb54442d18 (3141592653589793115997963468544185161590576171875 / 10 ^ 48).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x400921fb54442d18)) with (IZR 7074237752028440 * bpow radix2 (-51)) by reflexivity.
change (bpow radix2 (-51)) with (/ 2251799813685248). lra.
Qed.
Theorem lit_2pi : holds 0x401921fb54442d18 (2 * (3141592653589793115997963468544185161590576171875 / 10 ^ 48)).
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x401921fb54442d18)) with (IZR 7074237752028440 * bpow radix2 (-50)) by reflexivity.
change (bpow radix2 (-50)) with (/ 1125899906842624). lra.
Qed.
Theorem lit_eps : fin (b64_of_bits 0x3cd203af9ee75616) /\ 999 / 10 ^ 18 < val (b64_of_bits 0x3cd203af9ee75616) < 1001 / 10 ^ 18.
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x3cd203af9ee75616)) with (IZR 5070602400912918 * bpow radix2 (-102)) by reflexivity.
change (bpow radix2 (-102)) with (/ 5070602400912917605986812821504). split; lra.
Qed.
Theorem lit_snap : fin (b64_of_bits 0x3cc203af9ee75616) /\ 0 < val (b64_of_bits 0x3cc203af9ee75616) <= 500000000000001 / 10 ^ 30.
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x3cc203af9ee75616)) with (IZR 5070602400912918 * bpow radix2 (-103)) by reflexivity.
change (bpow radix2 (-103)) with (/ 10141204801825835211973625643008). split; lra.
Qed.
Theorem lit_max : fin (b64_of_bits 0x7fefffffffffffff) /\ val (b64_of_bits 0x7fefffffffffffff) > big.
Proof.
split; [reflexivity|].
replace (val (b64_of_bits 0x7fefffffffffffff)) with (IZR 9007199254740991 * bpow radix2 971) by reflexivity.
apply Rlt_gt. apply Rlt_le_trans with (bpow radix2 50 * bpow radix2 971).
- rewrite <- bpow_plus. unfold big. apply bpow_lt. lia.
- apply Rmult_le_compat_r. apply bpow_ge_0. change (bpow radix2 50) with (IZR 1125899906842624). apply IZR_le. lia.
Qed.
Print Assumptions ax_two_prod.
