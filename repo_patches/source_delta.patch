From 422fafdee72dbed598cb380a08ad86d330c6fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 01/14] fix: UTF decoders misread multi-byte characters when 2
 GiB or more of input remain

---
 rlib/rutf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rlib/rutf.c b/rlib/rutf.c
index 15d8017..c59c7f2 100644
--- a/rlib/rutf.c
+++ b/rlib/rutf.c
@@ -23,7 +23,7 @@
 
 int r_utf8_mbtowc(ruint32 *pwc, const unsigned char *input, const unsigned char *end)
 {
-	int n;
+	long n;
 	unsigned char c;
 
 	if (input >= end) {
@@ -35,7 +35,7 @@ int r_utf8_mbtowc(ruint32 *pwc, const unsigned char *input, const unsigned char
 		*pwc = c;
 		return 1;
 	}
-	n = (int)(end - input);
+	n = (long)(end - input);
 	if (c == 0xC0 || c == 0xC1 || (c >= 0xF5))
 		goto error;
 	if ((c >> 5) == 6) {
@@ -101,7 +101,7 @@ int r_utf8_wctomb(ruint32 wc, unsigned char *output, ruint32 size)
 
 int r_utf16_mbtowc(ruint32 *pwc, const unsigned char *s, const unsigned char *end)
 {
-	int n = (int)(end - s);
+	long n = (long)(end - s);
 	ruint32 wc1, wc2;
 
 	if (s >= end) {
-- 
2.43.0


From 11ad05356880109beada197b5e6217f3c58d2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 02/14] fix: ADC and SBC lose the carry when the second operand
 plus the incoming carry wraps

---
 rvm/rvmcpu.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..a1f0bb4 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -372,10 +372,11 @@ static void rvm_op_adds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
-	
-	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
+
+	res = op2 + op3 + carry;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, carry ? res <= op2 : res < op2);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -634,10 +635,11 @@ static void rvm_op_subs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword borrow = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : 1;
 
-	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
+	res = op2 - op3 - borrow;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, borrow ? op2 > op3 : op2 >= op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From 116084ccd58ed3a67906f22e84a196156092d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 03/14] fix: ASR shifts in zeros below the sign bit of a
 negative operand

---
 rvm/rvmcpu.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index a1f0bb4..acb8f77 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -446,8 +446,7 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
-	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	res = (ruword)(((rword)op2) >> op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From ebb0fa5c303edf3a284689128c45305bb0a43ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 04/14] fix: ROR never returns when the rotate count exceeds 32
 bits

---
 rvm/rvmcpu.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index acb8f77..67293ae 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -460,6 +460,7 @@ static void rvm_op_ror(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
 	res = op2;
+	op3 %= RVM_REGISTER_BITS;
 	for (i = 0; i < op3; i++) {
 		if (res & 1) {
 			res >>= 1;
-- 
2.43.0


From a71d894c1faa093cb1f31c55aedd8afbcb5e7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 05/14] fix: DVS and MODS crash the host dividing the smallest
 integer by -1; drop MODS debug print

---
 rvm/rvmcpu.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 67293ae..ac6cbe8 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -718,8 +718,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
+	res = (op3 == -1) ? 0 : op2 % op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -734,7 +733,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = (op3 == -1) ? (rword)(0 - (ruword)op2) : op2 / op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From 29f48ad47d0ae628ea487a2ba50a8101271a8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 06/14] fix: LSR and LSRS do not set the negative flag from
 their result

---
 rvm/rvmcpu.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index ac6cbe8..c44125d 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -428,6 +428,7 @@ static void rvm_op_lsr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -439,6 +440,7 @@ static void rvm_op_lsrs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
-- 
2.43.0


From 8231b84a50072c66c1f8d12b5bfd6661ea37e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 07/14] fix: rex_regex_match_byte must not sign-extend bytes
 above 0x7f

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..644f6ac 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -172,7 +172,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From b39fd8d9e86efb467d8b0267df4f1dc3a1d1b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 08/14] fix: record attributes of an index past the last record
 read before the array

---
 rpa/rparecord.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..474359b 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -271,7 +271,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -285,12 +285,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -304,7 +304,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
-- 
2.43.0


From 57115c59279665bf404e425fec279a4a0e59b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 09/14] fix: rpa_recordtree_copy copied the first records of
 the source, not those of the subtree

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index 474359b..2928bbc 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From 881e219855d969b5073e0855e5f958aabe4010ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 10/14] fix: rpa_stat_exec ran the program although the input
 range was rejected

---
 rpa/rpastat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..0ff11c6 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From ca5632fd37355a269b80c8c6338e9379320ba2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 11/14] fix: the prefilter bitmap of a sequence without
 required parts excluded the characters that follow it

---
 rpa/rpabitmap.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..0bf97cf 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -151,8 +151,12 @@ static long rpa_bitmap_set_namedrule(rarray_t *records, rparecord_t *record, lon
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
 			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
-				break;
+				return 0;
 		}
+		/*
+		 * Nothing in the sequence is required, so it can be followed by any character.
+		 */
+		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 	}
 	return 0;
 }
@@ -167,8 +171,12 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
 			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
-				break;
+				return 0;
 		}
+		/*
+		 * Nothing in the sequence is required, so it can be followed by any character.
+		 */
+		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 	}
 	return 0;
 }
-- 
2.43.0


From 01d400f5c9f297c8d63c443a573ff99e95912035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 12/14] fix: the prefilter bitmap of an optional
 minus-expression excluded the characters that follow it

---
 rpa/rpabitmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0bf97cf..c4961fc 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -205,6 +205,8 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
+			if (childrecord->usertype & RPA_MATCH_OPTIONAL)
+				RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		}
 	}
 	return 0;
-- 
2.43.0


From c71a08fb4474342bd02aca91b2ad8a4988feaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 13/14] fix: the prefilter bitmap rejected rules that can match
 nothing at the end of the input

---
 rpa/rpastat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 0ff11c6..63e0643 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -302,7 +302,7 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	rpainput_t *in = &stat->instack[top];
 
 	if (in->eof)
-		return 0;
+		return bitmap == (rpabitmap_t)-1 ? TRUE : FALSE;	/* only a rule that can match nothing may be tried here */
 	if (stat->encoding & RPA_ENCODING_ICASE) {
 		ret = (RPA_BITMAP_GETBIT(&bitmap, in->wc % RPA_BITMAP_BITS) || RPA_BITMAP_GETBIT(&bitmap, in->iwc % RPA_BITMAP_BITS)) ? TRUE : FALSE;
 	} else {
-- 
2.43.0


From bd3aed8102f0047a7717efee07a5bf537bf4ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:51 +0000
Subject: [PATCH 14/14] fix: keep character ranges sorted when a range is given
 high to low

rex_transitions_add searched for the slot with the first bound given and
stored the range under its lower one, so [bz-a] left the list unsorted and
normalising it dropped every range: 'b' was not matched.
---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0

