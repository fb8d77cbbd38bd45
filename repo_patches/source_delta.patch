From 3c947fe3cda9c0113ef8e50b3fb4e63cbb6d90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 01/44] fix: compare indexes as unsigned in bounds checks

A negative index passed the signed compare and read out of bounds.
---
 6/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 6b2a9d6..385070f 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -489,7 +489,7 @@ idxaddr(Simp *s, Node *seq, Node *idx)
 	assert(exprtype(t)->type == Typtr);
 	u = rval(s, idx, NULL);
 	u = ptrsized(s, u);
-	checkidx(s, Olt, w, u);
+	checkidx(s, Oult, w, u);
 	sz = tysize(ty);
 	v = mul(u, disp(seq->loc, sz));
 	r = add(t, v);
@@ -700,7 +700,7 @@ simpslice(Simp *s, Node *n, Node *dst)
 	 * of '*foo = bar'. */
 	max = seqlen(s, seq, tyword);
 	if (max)
-		checkidx(s, Ole, max, end);
+		checkidx(s, Oule, max, end);
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
-- 
2.43.0


From e5aa0a89ec699914be76a478d5271b3aaa8b7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 02/44] fix: abort when a slice starts after its end

The start of a slice was never checked, so s[3:1] made a slice with
a negative length.
---
 6/simp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 385070f..8ea4f4c 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -699,8 +699,10 @@ simpslice(Simp *s, Node *n, Node *dst)
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
 	max = seqlen(s, seq, tyword);
-	if (max)
+	if (max) {
 		checkidx(s, Oule, max, end);
+		checkidx(s, Oule, end, start);
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
-- 
2.43.0


From ddf180cf11e7430df661f1d0f98217e8e0b3b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 03/44] fix: keep zero extending moves within one register

When a uint32 was widened to 64 bits in place, the move was rewritten
to a 32 bit move and then dropped, leaving stale bits in the high half.
---
 6/gengas.c | 3 +--
 6/genp9.c  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/6/gengas.c b/6/gengas.c
index b224300..baa4c3d 100644
--- a/6/gengas.c
+++ b/6/gengas.c
@@ -126,8 +126,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* never a dumb move: even within one register, it clears the high bits */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
diff --git a/6/genp9.c b/6/genp9.c
index 4fd9257..18136ac 100644
--- a/6/genp9.c
+++ b/6/genp9.c
@@ -124,8 +124,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* never a dumb move: even within one register, it clears the high bits */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
-- 
2.43.0


From 31a5519ec002841770aad477eb8a0ac831489ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 04/44] fix: pad one element gaps in constant arrays

---
 6/blob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/blob.c b/6/blob.c
index 9301723..faa59fb 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -322,7 +322,7 @@ blobrec(Blob *b, Htab *globls, Htab *strtab, Node *n)
 		for (i = 0; i < n->expr.nargs; i++) {
 			if (!getintlit(n->expr.args[i]->expr.idx, &idx))
 				die("non-numeric array size");
-			if (idx != last + 1)
+			if (idx != last)
 				sz += blobpad(b, (idx - last)*size(n->expr.args[i]));
 			sz += blobrec(b, globls, strtab, n->expr.args[i]);
 			last = idx + 1;
-- 
2.43.0


From 819fd5add9d9e40e9b1924fb0c68384f7962f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/44] fix: emit char literals in constant data at the size of
 their type

A char literal cast to byte still took up 4 bytes of a constant.
---
 6/blob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/blob.c b/6/blob.c
index faa59fb..b1914cf 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -138,7 +138,7 @@ bloblit(Blob *seq, Htab *strtab, Node *v, Type *ty)
 	case Lvoid:	break;
 	case Lint:	b(seq, mkblobi(intsz[sz], v->lit.intval));	break;
 	case Lbool:	b(seq, mkblobi(Bti8, v->lit.boolval));	break;
-	case Lchr:	b(seq, mkblobi(Bti32, v->lit.chrval));	break;
+	case Lchr:	b(seq, mkblobi(intsz[sz], v->lit.chrval));	break;
 	case Lflt:
 		if (tybase(v->lit.type)->type == Tyflt32) {
 			u.fv = v->lit.fltval;
-- 
2.43.0


From f28ad8db2f82fcee06c34cb58c4fdd41c8783c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 06/44] fix: leave room for the nul in identstr

An identifier of 1024 or more chars wrote one byte past its buffer.
---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 8b40dc2..0c3b73b 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -231,7 +231,7 @@ identstr(char *buf, size_t sz)
 	char c;
 
 	i = 0;
-	for (c = peek(); i < sz && identchar(c); c = peek()) {
+	for (c = peek(); i < sz - 1 && identchar(c); c = peek()) {
 		next();
 		buf[i++] = c;
 	}
-- 
2.43.0


From 9f9359d9a37844a036a1b2d15d93adf18e05293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 07/44] fix: reject functions nested past the label stack

---
 parse/gram.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/gram.y b/parse/gram.y
index 9b8f36e..d06a7a1 100644
--- a/parse/gram.y
+++ b/parse/gram.y
@@ -892,7 +892,8 @@ strlit : Tstrlit { $$ = mkstr($1->loc, $1->strval); }
 	;
 
 obrace	: Tobrace {
-		assert(lbldepth < LBLSTKSZ);
+		if (lbldepth + 1 >= LBLSTKSZ)
+			lfatal($1->loc, "functions nested too deeply");
 		lbldepth++;
 	}
 	;
-- 
2.43.0


From 37ba3ba191a7c2bd544e31312582c69f84857748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 08/44] fix: keep all 64 bits of integer literals in use files

Exported generics and consts lost the high half of wide literals.
---
 parse/parse.h |  2 +-
 parse/use.c   |  4 ++--
 util/pack.c   | 16 ++++++++++++++++
 util/util.h   |  2 ++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parse/parse.h b/parse/parse.h
index e3b402f..b45118c 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -1,4 +1,4 @@
-#define Abiversion 23
+#define Abiversion 24
 
 typedef struct Srcloc Srcloc;
 typedef struct Tysubst Tysubst;
diff --git a/parse/use.c b/parse/use.c
index 5b01860..5c2d3f1 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -528,7 +528,7 @@ pickle(FILE *fd, Node *n)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	wrint(fd, n->lit.chrval);	break;
-		case Lint:	wrint(fd, n->lit.intval);	break;
+		case Lint:	wrvlong(fd, n->lit.intval);	break;
 		case Lflt:	wrflt(fd, n->lit.fltval);	break;
 		case Lstr:	wrlenstr(fd, n->lit.strval);	break;
 		case Llbl:	wrstr(fd, n->lit.lblval);	break;
@@ -651,7 +651,7 @@ unpickle(FILE *fd)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	n->lit.chrval = rdint(fd);	break;
-		case Lint:	n->lit.intval = rdint(fd);	break;
+		case Lint:	n->lit.intval = rdvlong(fd);	break;
 		case Lflt:	n->lit.fltval = rdflt(fd);	break;
 		case Lstr:	rdlenstr(fd, &n->lit.strval);	break;
 		case Llbl:	n->lit.lblval = rdstr(fd);	break;
diff --git a/util/pack.c b/util/pack.c
index 6457ba0..1333cee 100644
--- a/util/pack.c
+++ b/util/pack.c
@@ -128,6 +128,22 @@ rdint(FILE *fd)
 	return host32(buf);
 }
 
+void
+wrvlong(FILE *fd, vlong val)
+{
+	byte buf[8];
+	be64(val, buf);
+	wrbuf(fd, buf, 8);
+}
+
+vlong
+rdvlong(FILE *fd)
+{
+	byte buf[8];
+	rdbuf(fd, buf, 8);
+	return host64(buf);
+}
+
 void
 wrstr(FILE *fd, char *val)
 {
diff --git a/util/util.h b/util/util.h
index be09dfc..1793949 100644
--- a/util/util.h
+++ b/util/util.h
@@ -148,6 +148,8 @@ void wrbyte(FILE *fd, char val);
 char rdbyte(FILE *fd);
 void wrint(FILE *fd, long val);
 long rdint(FILE *fd);
+void wrvlong(FILE *fd, vlong val);
+vlong rdvlong(FILE *fd);
 void wrstr(FILE *fd, char *val);
 char *rdstr(FILE *fd);
 void wrlenstr(FILE *fd, Str str);
-- 
2.43.0


From 4df209bbe79d6491fbe9aa0e91d1855f699d4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 09/44] fix: advance past a short read in rdbuf

---
 util/pack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/pack.c b/util/pack.c
index 1333cee..4278dab 100644
--- a/util/pack.c
+++ b/util/pack.c
@@ -84,10 +84,12 @@ void
 rdbuf(FILE *fd, void *buf, size_t sz)
 {
 	size_t n;
+	char *p;
 
-	n = sz;
-	while (n > 0) {
-		n -= fread(buf, 1, n, fd);
+	n = 0;
+	p = buf;
+	while (n < sz) {
+		n += fread(p + n, 1, sz - n, fd);
 		if (feof(fd))
 			die("Unexpected EOF");
 		if (ferror(fd))
-- 
2.43.0


From b1b03d6e790bed29d42f5cdc07853e080dd7eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 10/44] fix: keep the side effects of operands that fold away

0*f() and f()%1 dropped the call.
---
 parse/fold.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 4094c49..0a8d5fc 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -43,6 +43,12 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+static int
+iseffectfree(Node *n)
+{
+	return exprop(n) == Ovar || exprop(n) == Olit;
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
@@ -187,9 +193,9 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 1))
 			r = args[0];
 		/* 0 * x = 0 */
-		if (isintval(args[0], 0))
+		if (isintval(args[0], 0) && iseffectfree(args[1]))
 			r = args[0];
-		if (isintval(args[1], 0))
+		if (isintval(args[1], 0) && iseffectfree(args[0]))
 			r = args[1];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
 			r = val(n->loc, a * b, exprtype(n));
@@ -212,7 +218,7 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			fatal(args[1], "division by zero");
 		/* x%1 = 0 */
-		if (isintval(args[1], 1))
+		if (isintval(args[1], 1) && iseffectfree(args[0]))
 			r = val(n->loc, 0, exprtype(n));
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
 			r = val(n->loc, a % b, exprtype(n));
-- 
2.43.0


From 1b30ce066965c620596ac6c6ac42a2cfe1c63f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 11/44] fix: fold integer constants at the width and sign of
 their type

Everything was folded as int64, so unsigned division and right shifts,
wraparound and casts of constants gave other values than the code
generated for the same expression on variables.
---
 parse/fold.c | 105 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 22 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 0a8d5fc..88e5fbe 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -43,18 +43,60 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+/* the value that the generated code would hold for v in a variable of type t */
+static vlong
+wrap(vlong v, Type *t)
+{
+	if (!t)
+		return v;
+	switch (tybase(t)->type) {
+	case Tybool:	return v != 0;
+	case Tyint8:	return (int8_t)v;
+	case Tyint16:	return (int16_t)v;
+	case Tyint:
+	case Tyint32:	return (int32_t)v;
+	case Tybyte:
+	case Tyuint8:	return (uint8_t)v;
+	case Tyuint16:	return (uint16_t)v;
+	case Tychar:
+	case Tyuint:
+	case Tyuint32:	return (uint32_t)v;
+	default:	return v;
+	}
+}
+
+/* the bits of a shift count that the generated code looks at */
+static int
+shiftmask(Type *t)
+{
+	if (t && istyint(t) && tybase(t)->type != Tyint64 && tybase(t)->type != Tyuint64)
+		return 31;
+	return 63;
+}
+
 static int
 iseffectfree(Node *n)
 {
 	return exprop(n) == Ovar || exprop(n) == Olit;
 }
 
+/* gets the values of a pair of literal operands */
+static int
+getintlits(Node **args, vlong *a, vlong *b)
+{
+	if (!getintlit(args[0], a) || !getintlit(args[1], b))
+		return 0;
+	*a = wrap(*a, exprtype(args[0]));
+	*b = wrap(*b, exprtype(args[1]));
+	return 1;
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
 	Node *l, *n;
 
-	l = mkint(loc, val);
+	l = mkint(loc, wrap(val, t));
 	n = mkexpr(loc, Olit, l, NULL);
 	l->lit.type = t;
 	n->expr.type = t;
@@ -81,6 +123,7 @@ foldcast(Node *n)
 {
 	Type *to, *from;
 	Node *sub;
+	vlong v;
 
 	sub = n->expr.args[0];
 	to = exprtype(n);
@@ -98,7 +141,9 @@ foldcast(Node *n)
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
 		case Typtr:
-			if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
+			if (getintlit(sub, &v)) {
+				return val(n->loc, wrap(v, from), to);
+			} else if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
 				sub->expr.type = to;
 				return sub;
 			} else {
@@ -142,6 +187,7 @@ fold(Node *n, int foldvar)
 	vlong a, b;
 	Ucon *uc;
 	size_t i;
+	int shmask;
 
 	if (!n)
 		return NULL;
@@ -176,14 +222,14 @@ fold(Node *n, int foldvar)
 			r = args[1];
 		if (isintval(args[1], 0))
 			r = args[0];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a + b, exprtype(n));
+		if (getintlits(args, &a, &b))
+			r = val(n->loc, (uint64_t)a + b, exprtype(n));
 		break;
 	case Osub:
 		/* x - 0 = 0 */
 		if (isintval(args[1], 0))
 			r = args[0];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (getintlits(args, &a, &b))
 			r = val(n->loc, (uint64_t)a - b, exprtype(n));
 		break;
 	case Omul:
@@ -197,8 +243,8 @@ fold(Node *n, int foldvar)
 			r = args[0];
 		if (isintval(args[1], 0) && iseffectfree(args[0]))
 			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a * b, exprtype(n));
+		if (getintlits(args, &a, &b))
+			r = val(n->loc, (uint64_t)a * b, exprtype(n));
 		break;
 	case Odiv:
 		/* x/0 = error */
@@ -207,11 +253,14 @@ fold(Node *n, int foldvar)
 		/* x/1 = x */
 		if (isintval(args[1], 1))
 			r = args[0];
-		/* 0/x = 0 */
-		if (isintval(args[1], 0))
-			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a / b, exprtype(n));
+		if (getintlits(args, &a, &b) && b != 0) {
+			if (exprtype(n) && istyunsigned(exprtype(n)))
+				r = val(n->loc, (uint64_t)a / (uint64_t)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, -(uint64_t)a, exprtype(n));
+			else
+				r = val(n->loc, a / b, exprtype(n));
+		}
 		break;
 	case Omod:
 		/* x%0 = error */
@@ -220,31 +269,43 @@ fold(Node *n, int foldvar)
 		/* x%1 = 0 */
 		if (isintval(args[1], 1) && iseffectfree(args[0]))
 			r = val(n->loc, 0, exprtype(n));
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a % b, exprtype(n));
+		if (getintlits(args, &a, &b) && b != 0) {
+			if (exprtype(n) && istyunsigned(exprtype(n)))
+				r = val(n->loc, (uint64_t)a % (uint64_t)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, 0, exprtype(n));
+			else
+				r = val(n->loc, a % b, exprtype(n));
+		}
 		break;
 	case Oneg:
 		if (getintlit(args[0], &a))
-			r = val(n->loc, -a, exprtype(n));
+			r = val(n->loc, -(uint64_t)a, exprtype(n));
 		break;
 	case Obsl:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, (uint64_t)a << b, exprtype(n));
+		shmask = shiftmask(exprtype(n));
+		if (getintlits(args, &a, &b))
+			r = val(n->loc, (uint64_t)a << (b & shmask), exprtype(n));
 		break;
 	case Obsr:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a >> b, exprtype(n));
+		shmask = shiftmask(exprtype(n));
+		if (getintlits(args, &a, &b)) {
+			if (exprtype(n) && istyunsigned(exprtype(n)))
+				r = val(n->loc, (uint64_t)a >> (b & shmask), exprtype(n));
+			else
+				r = val(n->loc, a >> (b & shmask), exprtype(n));
+		}
 		break;
 	case Obor:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (getintlits(args, &a, &b))
 			r = val(n->loc, a | b, exprtype(n));
 		break;
 	case Oband:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (getintlits(args, &a, &b))
 			r = val(n->loc, a & b, exprtype(n));
 		break;
 	case Obxor:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (getintlits(args, &a, &b))
 			r = val(n->loc, a ^ b, exprtype(n));
 		break;
 	case Omemb:
-- 
2.43.0


From b56a096e26912c8bbc09922a4681ae7e239398c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 12/44] fix: map xmm10-15 to themselves in coreg

---
 6/locs.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/6/locs.c b/6/locs.c
index b314cd9..b2119be 100644
--- a/6/locs.c
+++ b/6/locs.c
@@ -249,12 +249,12 @@ coreg(Reg r, Mode m)
 		[Rxmm7f] = {[ModeF] = Rxmm7f, [ModeD] = Rxmm7d},
 		[Rxmm8f] = {[ModeF] = Rxmm8f, [ModeD] = Rxmm8d},
 		[Rxmm9f] = {[ModeF] = Rxmm9f, [ModeD] = Rxmm9d},
-		[Rxmm10f] = {[ModeF] = Rxmm0f, [ModeD] = Rxmm0d},
-		[Rxmm11f] = {[ModeF] = Rxmm1f, [ModeD] = Rxmm1d},
-		[Rxmm12f] = {[ModeF] = Rxmm2f, [ModeD] = Rxmm2d},
-		[Rxmm13f] = {[ModeF] = Rxmm3f, [ModeD] = Rxmm3d},
-		[Rxmm14f] = {[ModeF] = Rxmm4f, [ModeD] = Rxmm4d},
-		[Rxmm15f] = {[ModeF] = Rxmm5f, [ModeD] = Rxmm5d},
+		[Rxmm10f] = {[ModeF] = Rxmm10f, [ModeD] = Rxmm10d},
+		[Rxmm11f] = {[ModeF] = Rxmm11f, [ModeD] = Rxmm11d},
+		[Rxmm12f] = {[ModeF] = Rxmm12f, [ModeD] = Rxmm12d},
+		[Rxmm13f] = {[ModeF] = Rxmm13f, [ModeD] = Rxmm13d},
+		[Rxmm14f] = {[ModeF] = Rxmm14f, [ModeD] = Rxmm14d},
+		[Rxmm15f] = {[ModeF] = Rxmm15f, [ModeD] = Rxmm15d},
 		
 		[Rxmm0d] = {[ModeF] = Rxmm0f, [ModeD] = Rxmm0d},
 		[Rxmm1d] = {[ModeF] = Rxmm1f, [ModeD] = Rxmm1d},
@@ -266,12 +266,12 @@ coreg(Reg r, Mode m)
 		[Rxmm7d] = {[ModeF] = Rxmm7f, [ModeD] = Rxmm7d},
 		[Rxmm8d] = {[ModeF] = Rxmm8f, [ModeD] = Rxmm8d},
 		[Rxmm9d] = {[ModeF] = Rxmm9f, [ModeD] = Rxmm9d},
-		[Rxmm10d] = {[ModeF] = Rxmm0f, [ModeD] = Rxmm0d},
-		[Rxmm11d] = {[ModeF] = Rxmm1f, [ModeD] = Rxmm1d},
-		[Rxmm12d] = {[ModeF] = Rxmm2f, [ModeD] = Rxmm2d},
-		[Rxmm13d] = {[ModeF] = Rxmm3f, [ModeD] = Rxmm3d},
-		[Rxmm14d] = {[ModeF] = Rxmm4f, [ModeD] = Rxmm4d},
-		[Rxmm15d] = {[ModeF] = Rxmm5f, [ModeD] = Rxmm5d},
+		[Rxmm10d] = {[ModeF] = Rxmm10f, [ModeD] = Rxmm10d},
+		[Rxmm11d] = {[ModeF] = Rxmm11f, [ModeD] = Rxmm11d},
+		[Rxmm12d] = {[ModeF] = Rxmm12f, [ModeD] = Rxmm12d},
+		[Rxmm13d] = {[ModeF] = Rxmm13f, [ModeD] = Rxmm13d},
+		[Rxmm14d] = {[ModeF] = Rxmm14f, [ModeD] = Rxmm14d},
+		[Rxmm15d] = {[ModeF] = Rxmm15f, [ModeD] = Rxmm15d},
 	};
 
 	assert(crtab[r][m] != Rnone);
-- 
2.43.0


From b165f44ecc211148371cf19b06087fa533210619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 13/44] fix: use the right Plan 9 mnemonics for seta and setae

---
 6/insns.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/insns.def b/6/insns.def
index cc80adf..e8cb45b 100644
--- a/6/insns.def
+++ b/6/insns.def
@@ -219,12 +219,12 @@ Insn(Isetbe,
     Def(.l={1}))
 Insn(Iseta,
     "\tseta %v\n",
-    "\tSETCC %V\n",
+    "\tSETHI %V\n",
     Use(None),
     Def(.l={1}))
 Insn(Isetae,
     "\tsetae %v\n",
-    "\tSETHI %V\n",
+    "\tSETCC %V\n",
     Use(None),
     Def(.l={1}))
 
-- 
2.43.0


From bc773084155a5169dfc57ddf837314287d5b2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 14/44] fix: do not take a 0xff byte for the end of the source

The rest of the file was dropped without an error.
---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 0c3b73b..742862e 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -33,7 +33,7 @@ peekn(int n)
 	if (fidx + n >= fbufsz)
 		return End;
 	else
-		return fbuf[fidx + n];
+		return (unsigned char)fbuf[fidx + n];
 }
 
 static int
-- 
2.43.0


From 0d2b9646f4da46c15b6bae7f9802a19d06133586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 15/44] fix: scale slice offsets by the element size for named
 types

---
 6/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 8ea4f4c..f035b25 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -514,7 +514,7 @@ slicebase(Simp *s, Node *n, Node *off)
 	/* safe: all types we allow here have a sub[0] that we want to grab */
 	if (off) {
 		off = ptrsized(s, rval(s, off, NULL));
-		sz = tysize(n->expr.type->sub[0]);
+		sz = tysize(ty->sub[0]);
 		v = mul(off, disp(n->loc, sz));
 		return add(u, v);
 	} else {
-- 
2.43.0


From 3a82b26900fe5557f582e188a08e7003db7589ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 16/44] fix: give each folded array length its own node

---
 parse/fold.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 88e5fbe..07ce5eb 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -312,8 +312,9 @@ fold(Node *n, int foldvar)
 		t = tybase(exprtype(args[0]));
 		/* we only fold lengths right now */
 		if (t->type == Tyarray && !strcmp(namestr(args[1]), "len")) {
-			r = t->asize;
-			r->expr.type = exprtype(n);
+			/* asize is shared by everything of the type */
+			if (getintlit(t->asize, &a))
+				r = val(n->loc, a, exprtype(n));
 		} else if (t->type == Tyunion && !strcmp(namestr(args[1]), "tag")) {
 			r = mkexpr(n->loc, Outag, args[0], NULL);
 			r->expr.type = mktype(n->loc, Tyint32);
-- 
2.43.0


From 5c56ba9cb33e0c762c2881a84282198c5c91bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 17/44] fix: take the length of named slice and array types

---
 mi/flatten.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 193e64b..efa94af 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -169,10 +169,10 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 
 	if (!ty)
 		ty = n->expr.type;
-	if (exprtype(n)->type == Tyarray) {
+	if (tybase(exprtype(n))->type == Tyarray) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
-	} else if (exprtype(n)->type == Tyslice) {
+	} else if (tybase(exprtype(n))->type == Tyslice) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
 	} else {
-- 
2.43.0


From f17fd3f7ce236366a00bf542c0e11412b372ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 18/44] fix: check the bounds of slices of named types

---
 6/simp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index f035b25..6594929 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -321,13 +321,15 @@ static Node *
 seqlen(Simp *s, Node *n, Type *ty)
 {
 	Node *t, *r;
+	Type *seqty;
 
         r = NULL;
-	if (exprtype(n)->type == Tyslice) {
+	seqty = tybase(exprtype(n));
+	if (seqty->type == Tyslice) {
 		t = slicelen(s, n);
 		r = simpcast(s, t, ty);
-	} else if (exprtype(n)->type == Tyarray) {
-		t = exprtype(n)->asize;
+	} else if (seqty->type == Tyarray) {
+		t = seqty->asize;
                 if (t)
                     r = simpcast(s, t, ty);
 	}
-- 
2.43.0


From 8ae3fed12a254dd480648f4b3aec9bbc780ded09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 19/44] fix: check slice bounds against the whole length

---
 6/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 6594929..eac48f9 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -700,7 +700,7 @@ simpslice(Simp *s, Node *n, Node *dst)
 	len = sub(end, start);
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
-	max = seqlen(s, seq, tyword);
+	max = seqlen(s, seq, tyintptr);
 	if (max) {
 		checkidx(s, Oule, max, end);
 		checkidx(s, Oule, end, start);
-- 
2.43.0


From ab8676cb71a633d7c71f53e3aa0af3509a9c2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 20/44] fix: keep the pown table slices within their arrays

---
 lib/math/pown-impl.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index 6dfec19..f06eee1 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -51,7 +51,7 @@ const desc32 : fltdesc(flt32, uint32, int32) =  [
 	.assem = std.flt32assem,
 	.tobits = std.flt32bits,
 	.frombits = std.flt32frombits,
-	.C = accurate_logs32[0:130], /* See log-impl.myr */
+	.C = accurate_logs32[0:129], /* See log-impl.myr */
 	.one_over_ln2_hi = 0x3fb8aa3b, /* 1/ln(2), top part */
 	.one_over_ln2_lo = 0x32a57060, /* 1/ln(2), bottom part */
 	.nan = 0x7fc00000,
@@ -77,7 +77,7 @@ const desc64 : fltdesc(flt64, uint64, int64) =  [
 	.assem = std.flt64assem,
 	.tobits = std.flt64bits,
 	.frombits = std.flt64frombits,
-	.C = accurate_logs64[0:130], /* See log-impl.myr */
+	.C = accurate_logs64[0:129], /* See log-impl.myr */
 	.one_over_ln2_hi = 0x3ff71547652b82fe,
 	.one_over_ln2_lo = 0x3c7777d0ffda0d24,
 	.nan = 0x7ff8000000000000,
-- 
2.43.0


From a9ee2d429adefd4fc816aa306bb7f63558541f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 21/44] fix: reject constant slices outside of their array

---
 6/blob.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/6/blob.c b/6/blob.c
index b1914cf..3918084 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -177,8 +177,9 @@ static size_t
 blobslice(Blob *seq,  Htab *globls, Htab *strtab, Node *n)
 {
 	Node *base, *lo, *hi;
-	vlong loval, hival, baseval, sz;
+	vlong loval, hival, baseval, sz, nelt;
 	Blob *slbase;
+	Type *ty;
 	char *lbl;
 
 	base = n->expr.args[0];
@@ -193,7 +194,12 @@ blobslice(Blob *seq,  Htab *globls, Htab *strtab, Node *n)
 	if (!getintlit(hi, &hival))
 		fatal(hi, "upper bound in slice is not constant literal");
 	if (exprop(base) == Ovar && base->expr.isconst) {
-		sz = tysize(tybase(exprtype(base))->sub[0]);
+		ty = tybase(exprtype(base));
+		if (ty->type != Tyarray || !getintlit(ty->asize, &nelt))
+			fatal(base, "slice base is not a constant array");
+		if (loval < 0 || hival < loval || hival > nelt)
+			fatal(n, "slice out of bounds");
+		sz = tysize(ty->sub[0]);
 		lbl = htget(globls, base);
 		slbase = mkblobref(lbl, loval*sz, 1);
 	} else if (exprop(base) == Olit || exprop(base) == Oarr) {
-- 
2.43.0


From ba3f205ccf89c170bf32a5b21820099399ced725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 22/44] fix: convert between floats and integers at the width
 and sign of each

---
 6/insns.def |  5 +++++
 6/isel.c    | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/6/insns.def b/6/insns.def
index e8cb45b..67edb78 100644
--- a/6/insns.def
+++ b/6/insns.def
@@ -239,6 +239,11 @@ Insn(Icvttsd2si,
     "\tCVTTS%T2S%2T %X,%R\n",
     Use(.l={1}),
     Def(.l={2}))
+Insn(Icvttss2si,
+    "\tcvttss2si%2t %x,%r\n",
+    "\tCVTTSS2S%2T %X,%R\n",
+    Use(.l={1}),
+    Def(.l={2}))
 Insn(Icvttsi2sd,
     "\tcvtsi2s%2t %x,%f\n",
     "\tCVTS%T2S%2T %X,%F\n",
diff --git a/6/isel.c b/6/isel.c
index 0000424..3f03a2b 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1138,6 +1138,16 @@ selexpr(Isel *s, Node *n)
 	case Oint2flt:
 		a = selexpr(s, args[0]);
 		a = inr(s ,a);
+		/* the hardware only converts signed 32 and 64 bit integers */
+		if (a->mode == ModeB || a->mode == ModeW) {
+			b = locreg(ModeL);
+			g(s, istysigned(exprtype(args[0])) ? Imovsx : Imovzx, a, b, NULL);
+			a = b;
+		} else if (a->mode == ModeL && !istysigned(exprtype(args[0]))) {
+			b = locreg(ModeQ);
+			movz(s, a, b);
+			a = b;
+		}
 		r = locreg(mode(n));
 		g(s, Icvttsi2sd, a, r, NULL);
 		break;
@@ -1145,7 +1155,15 @@ selexpr(Isel *s, Node *n)
 		a = selexpr(s, args[0]);
 		a = inr(s ,a);
 		r = locreg(mode(n));
-		g(s, Icvttsd2si, a, r, NULL);
+		/* likewise: convert to a wider signed integer, and truncate */
+		b = r;
+		if (r->mode == ModeB || r->mode == ModeW)
+			b = locreg(ModeL);
+		else if (r->mode == ModeL && !istysigned(exprtype(n)))
+			b = locreg(ModeQ);
+		g(s, a->mode == ModeF ? Icvttss2si : Icvttsd2si, a, b, NULL);
+		if (b != r)
+			g(s, Imov, b, r, NULL);
 		break;
 
 	case Oflt2flt:
-- 
2.43.0


From 7e3b518aea5c7e7731a534c9b63667ae8676420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 23/44] fix: do not return from the bounds abort when SIGABRT
 is ignored

---
 rt/abort-linux.s | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rt/abort-linux.s b/rt/abort-linux.s
index 8ac1c02..3fa257a 100644
--- a/rt/abort-linux.s
+++ b/rt/abort-linux.s
@@ -28,6 +28,12 @@ __rt$abort_oob:
 	movq	$62, %rax	/* kill(pid=%rdi, sig=%rsi) */
 	movq	$6, %rsi	/* kill(pid=%rdi, sig=%rsi) */
 	syscall
+	/* the signal can be ignored, but this never returns */
+.die:
+	movq	$231,%rax	/* exit_group(status=%rdi) */
+	movq	$134,%rdi	/* status */
+	syscall
+	jmp .die
 .data
 .msg: 	/* pc name:  */
 	.byte '0','x'
-- 
2.43.0


From e0e44895e9c76c1fbe6449e9f7bc39c02111a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 24/44] fix: evaluate the right hand side of a tuple assignment
 once, before storing

---
 mi/flatten.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index efa94af..15c14d0 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -356,12 +356,15 @@ destructure(Flattenctx *s, Node *lhs, Node *rhs)
 	size_t i;
 
 	args = lhs->expr.args;
-	rhs = rval(s, rhs);
+	/* copy it: storing to an element of lhs may change what rhs reads */
+	rv = rval(s, rhs);
+	rhs = temp(s, rv);
+	append(s, asn(rhs, rv));
 	for (i = 0; i < lhs->expr.nargs; i++) {
 		idx = mkintlit(rhs->loc, i);
 		idx->expr.type = mktype(rhs->loc, Tyuint64);
 		rv = mkexpr(rhs->loc, Otupget, rhs, idx, NULL);
-		rv->expr.type = lhs->expr.type;
+		rv->expr.type = exprtype(args[i]);
 
 		if (exprop(args[i]) == Otup) {
 			destructure(s, args[i], rv);
-- 
2.43.0


From 49352483d66f5f9a4ed99bab400ada98f0d331a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 25/44] fix: apply postincrements exactly when their operand is
 evaluated

---
 mi/flatten.c | 88 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 17 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 15c14d0..c1f0a65 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -245,8 +245,29 @@ dispose(Flattenctx *s, Stab *st, size_t n)
 	}
 }
 
+/*
+ * Applies the increments queued since there were nq of them, giving the
+ * value that n had before. They belong to an operand that may be skipped,
+ * and must not be applied when it is.
+ */
+static Node *
+drainfrom(Flattenctx *s, size_t nq, Node *n)
+{
+	Node *t;
+	size_t i;
+
+	if (s->nqueue <= nq)
+		return n;
+	t = temp(s, n);
+	append(s, asn(t, n));
+	for (i = nq; i < s->nqueue; i++)
+		append(s, s->incqueue[i]);
+	s->nqueue = nq;
+	return t;
+}
+
 static void
-flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
+condjmp(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse, size_t nq)
 {
 	Node **args;
 	Node *v, *lnext;
@@ -255,31 +276,40 @@ flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
 	switch (exprop(n)) {
 	case Oland:
 		lnext = genlbl(n->loc);
-		flattencond(s, args[0], lnext, lfalse);
+		condjmp(s, args[0], lnext, lfalse, nq);
 		append(s, lnext);
-		flattencond(s, args[1], ltrue, lfalse);
+		condjmp(s, args[1], ltrue, lfalse, min(nq, s->nqueue));
 		break;
 	case Olor:
 		lnext = genlbl(n->loc);
-		flattencond(s, args[0], ltrue, lnext);
+		condjmp(s, args[0], ltrue, lnext, nq);
 		append(s, lnext);
-		flattencond(s, args[1], ltrue, lfalse);
+		condjmp(s, args[1], ltrue, lfalse, min(nq, s->nqueue));
 		break;
 	case Olnot:
-		flattencond(s, args[0], lfalse, ltrue);
+		condjmp(s, args[0], lfalse, ltrue, nq);
 		break;
 	default:
 		v = rval(s, n);
+		v = drainfrom(s, nq, v);
 		cjmp(s, v, ltrue, lfalse);
 		break;
 	}
 }
 
+/* operands that always run leave their increments to the caller */
+static void
+flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
+{
+	condjmp(s, n, ltrue, lfalse, -1);
+}
+
 static Node*
 flattentern(Flattenctx *s, Node *n)
 {
 	Node *l1, *l2, *l3;
 	Node *res, *t;
+	size_t nq;
 
 	l1 = genlbl(n->loc);
 	l2 = genlbl(n->loc);
@@ -288,13 +318,16 @@ flattentern(Flattenctx *s, Node *n)
 	res = temp(s, n);
 	flattencond(s, n->expr.args[0], l1, l2);
 
+	nq = s->nqueue;
 	append(s, l1);
-	t = assign(s, res, rval(s, n->expr.args[1]));
+	t = drainfrom(s, nq, rval(s, n->expr.args[1]));
+	t = assign(s, res, t);
 	append(s, t);
 	jmp(s, l3);
 
 	append(s, l2);
-	t = assign(s, res, rval(s, n->expr.args[2]));
+	t = drainfrom(s, nq, rval(s, n->expr.args[2]));
+	t = assign(s, res, t);
 	append(s, t);
 
 	append(s, l3);
@@ -726,6 +759,24 @@ flattenblk(Flattenctx *s, Node *n)
 	s->curst = st;
 }
 
+/* does evaluating n queue increments? */
+static int
+hasinc(Node *n)
+{
+	size_t i;
+
+	if (!n || n->type != Nexpr)
+		return 0;
+	if (exprop(n) == Opostinc || exprop(n) == Opostdec)
+		return 1;
+	if (hasinc(n->expr.idx))
+		return 1;
+	for (i = 0; i < n->expr.nargs; i++)
+		if (hasinc(n->expr.args[i]))
+			return 1;
+	return 0;
+}
+
 /* init; while cond; body;;
  *    => init
  *       jmp :cond
@@ -744,12 +795,11 @@ flattenloop(Flattenctx *s, Node *n)
 	Loop l;
 	Node *lbody;
 	Node *lend;
-	Node *ldec;
 	Node *lcond;
 	Node *lstep;
+	Node *cond, *v;
 
 	lbody = genlbl(n->loc);
-	ldec = genlbl(n->loc);
 	lcond = genlbl(n->loc);
 	lstep = genlbl(n->loc);
 	lend = genlbl(n->loc);
@@ -770,12 +820,16 @@ flattenloop(Flattenctx *s, Node *n)
 	flatten(s, lstep);             /* test lbl */
 	flatten(s, n->loopstmt.step);  /* step */
 	flatten(s, lcond);             /* test lbl */
-	flattencond(s, n->loopstmt.cond, ldec, lend);    /* repeat? */
-	flatten(s, ldec);        	/* drain decrements */
-	draininc(s);
-	jmp(s, lbody);              	/* goto test */
+	cond = n->loopstmt.cond;
+	if (hasinc(cond)) {
+		/* the increments apply however the test goes */
+		v = rval(s, cond);
+		cond = temp(s, v);
+		append(s, asn(cond, v));
+		draininc(s);
+	}
+	flattencond(s, cond, lbody, lend);    /* repeat? */
 	flatten(s, lend);             	/* exit */
-	draininc(s);
 
 	s->inloop--;
 	s->loop = l;
@@ -896,7 +950,7 @@ flattenidxiter(Flattenctx *s, Node *n)
 	zero = mkintlit(n->loc, 0);
 	zero->expr.type = idxtype;
 
-	seq = rval(s, n->iterstmt.seq);
+	seq = drainfrom(s, 0, rval(s, n->iterstmt.seq));
 	idx = gentemp(n->loc, idxtype, &dcl);
 
 	/* setup */
@@ -976,7 +1030,7 @@ flattentraititer(Flattenctx *s, Node *n)
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-	seq = rval(s, n->iterstmt.seq);
+	seq = drainfrom(s, 0, rval(s, n->iterstmt.seq));
 	append(s, asn(iter, seq));
 	jmp(s, lstep);
 	flatten(s, lbody);
-- 
2.43.0


From fff4034f59ef1cb2fcd8e7fdd2be3e0e852a1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 26/44] fix: do not overwrite the destination while building an
 aggregate or slice from it

---
 6/simp.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index eac48f9..de00c54 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -705,6 +705,12 @@ simpslice(Simp *s, Node *n, Node *dst)
 		checkidx(s, Oule, max, end);
 		checkidx(s, Oule, end, start);
 	}
+	if (dst) {
+		/* the bounds may read what we are about to overwrite */
+		sz = temp(s, len);
+		append(s, set(sz, len));
+		len = sz;
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
@@ -774,13 +780,47 @@ tupget(Simp *s, Node *tup, size_t idx, Node *dst)
 	return dst;
 }
 
+/* 
+ * Can building n piece by piece in dst overwrite something that a later
+ * piece reads?
+ */
+static int
+readsdst(Node *n, Node *dst)
+{
+	size_t i;
+
+	switch (exprop(n)) {
+	case Olit:
+		return 0;
+	case Ovar:
+		return exprop(dst) != Ovar || dst->expr.did == n->expr.did;
+	case Oucon:
+		return n->expr.nargs > 1 && n->expr.args[1] && readsdst(n->expr.args[1], dst);
+	case Oarr: case Ostruct: case Otup: case Ocast:
+	case Oadd: case Osub: case Omul: case Oneg:
+		for (i = 0; i < n->expr.nargs; i++)
+			if (readsdst(n->expr.args[i], dst))
+				return 1;
+		return 0;
+	default:
+		return 1;
+	}
+}
+
 static Node *
 assign(Simp *s, Node *lhs, Node *rhs)
 {
 	Node *t, *u, *v, *r;
 
 	t = lval(s, lhs);
-	u = rval(s, rhs, t);
+	switch (exprop(rhs)) {
+	case Oarr: case Ostruct: case Otup: case Oucon:
+		u = rval(s, rhs, readsdst(rhs, t) ? NULL : t);
+		break;
+	default:
+		u = rval(s, rhs, t);
+		break;
+	}
 
 	if (tybase(exprtype(lhs))->type == Tyvoid)
 		return u;
-- 
2.43.0


From 2aa5a9ee7d376b1910871dea28ae958ee600714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 27/44] fix: count the float register of single float
 aggregates

---
 6/isel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/isel.c b/6/isel.c
index 3f03a2b..f56db7d 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -616,6 +616,7 @@ sufficientregs(ArgType a, size_t nfloats, size_t nints)
 		int freg;
 	} needed[] = {
 	[ArgAggrI]   = {1, 0},
+	[ArgAggrF]   = {0, 1},
 	[ArgAggrFI]  = {1, 1},
 	[ArgAggrIF]  = {1, 1},
 	[ArgAggrII]  = {2, 0},
-- 
2.43.0


From 7c5b17165474c25cf44ead0f5a74bc68c32e24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 28/44] fix: evaluate every call argument before putting any in
 its register

---
 6/isel.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index f56db7d..1ff20cf 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -526,11 +526,10 @@ clear(Isel *s, Loc *val, size_t sz, size_t align)
 }
 
 static void
-call(Isel *s, Node *n)
+call(Isel *s, Node *n, Loc *f, Loc *e)
 {
 	AsmOp op;
 	Node *fn;
-	Loc *f, *e;
 
 	if (exprop(n) == Ocall) {
 		op = Icall;
@@ -539,8 +538,6 @@ call(Isel *s, Node *n)
 		f = locmeml(htget(s->globls, fn), NULL, NULL, mode(fn));
 	} else {
 		op = Icallind;
-		f = selexpr(s, n->expr.args[0]);
-		e = selexpr(s, n->expr.args[1]);
 		g(s, Imov, e, locphysreg(Rrax), NULL);
 	}
 	g(s, op, f, NULL);
@@ -642,6 +639,7 @@ static void
 gencall(Isel *s, Node *n)
 {
 	Loc *arg;	/* values we reduced */
+	Loc **argl, *f, *e;
 	size_t argsz, argoff, nargs, falseargs, vasplit;
 	size_t nfloats, nints;
 	Loc *retloc1, *retloc2, *rsp;	/* hard-coded registers */
@@ -737,13 +735,27 @@ gencall(Isel *s, Node *n)
 	if (argsz)
 		g(s, Isub, stkbump, rsp, NULL);
 
-	/* Now, we can evaluate the arguments */
+	/*
+	 * Now, we can evaluate the arguments. None of them can be put in place
+	 * before all of them are evaluated: shifts and divisions use registers
+	 * that arguments are passed in.
+	 */
+	argl = zalloc(nargs * sizeof(Loc*));
+	for (i = 0; i < nargs; i++)
+		argl[i] = selexpr(s, args[i]);
+	f = NULL;
+	e = NULL;
+	if (exprop(n) == Ocallind) {
+		f = selexpr(s, n->expr.args[0]);
+		e = selexpr(s, n->expr.args[1]);
+	}
+
 	argoff = 0;
 	nfloats = 0;
 	nints = 0;
 	vararg = 0;
 	for (i = 0; i < nargs; i++) {
-		arg = selexpr(s, args[i]);
+		arg = argl[i];
 		t = exprtype(args[i]);
 		argoff = alignto(argoff, t);
 		ArgType a = ArgBig;
@@ -793,7 +805,8 @@ gencall(Isel *s, Node *n)
 		}
 
 	}
-	call(s, n);
+	call(s, n, f, e);
+	free(argl);
 	if (argsz)
 		g(s, Iadd, stkbump, rsp, NULL);
 
-- 
2.43.0


From 5f96936200197f749ee372ec16a4a79b14bc08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 29/44] fix: move byte remainders out of ah before using them

---
 6/isel.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 1ff20cf..4a729ba 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -965,8 +965,11 @@ selexpr(Isel *s, Node *n)
 			d = coreg(Reax, mode(n));
 		else if (r->mode != ModeB)
 			d = coreg(Redx, mode(n));
-		else
-			d = locphysreg(Rah);
+		else {
+			/* ah can't be moved to registers that need a rex prefix */
+			d = locphysreg(Ral);
+			g(s, Imov, locphysreg(Rah), d, NULL);
+		}
 		g(s, Imov, d, r, NULL);
 		break;
 	case Oneg:
-- 
2.43.0


From 1743c6f4658bf306e4f105bdc1963f0d310180ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 30/44] fix: give small aggregates stack slots of whole words

---
 6/simp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index de00c54..10ca2c4 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -168,9 +168,15 @@ floatnode(Node *n)
 static void
 forcelocal(Simp *s, Node *n)
 {
+	size_t sz;
+
 	assert(n->type == Ndecl || (n->type == Nexpr && exprop(n) == Ovar));
-	s->stksz += size(n);
-	s->stksz = align(s->stksz, min(size(n), Ptrsz));
+	sz = size(n);
+	/* small aggregates are copied to and from registers in whole words */
+	if (stacknode(n))
+		sz = align(sz, Ptrsz);
+	s->stksz += sz;
+	s->stksz = align(s->stksz, min(sz, Ptrsz));
 	if (debugopt['i']) {
 		dumpn(n, stdout);
 		printf("declared at %zd, size = %zd\n", s->stksz, size(n));
-- 
2.43.0


From 2dee5a3e2334d6d7f6c5a9d19c3a735bfd0d5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 31/44] fix: do not read past small aggregates when passing
 them in registers

---
 6/simp.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 10ca2c4..c482ee0 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1108,6 +1108,32 @@ getcode(Simp *s, Node *n)
 	return r;
 }
 
+/*
+ * Small aggregates are passed in registers, which are loaded a word at a time.
+ * Copies an argument that doesn't fill its last word, since there may be
+ * nothing mapped after it.
+ */
+static Node *
+wholewords(Simp *s, Node *n)
+{
+	Node *t;
+
+	switch (classify(exprtype(n))) {
+	case ArgVoid: case ArgReg: case ArgBig:
+		return n;
+	default:
+		break;
+	}
+	if (size(n) % Ptrsz == 0)
+		return n;
+	if (exprop(n) == Ovar && hthas(s->stkoff, n))
+		return n;
+	t = temp(s, n);
+	append(s, mkexpr(n->loc, Oblit, addr(s, t, exprtype(t)),
+		addr(s, n, exprtype(n)), disp(n->loc, size(n)), NULL));
+	return t;
+}
+
 static Node *
 simpcall(Simp *s, Node *n, Node *dst)
 {
@@ -1163,7 +1189,7 @@ simpcall(Simp *s, Node *n, Node *dst)
 			lappend(&args, &nargs, vatypeinfo(s, n));
 		if (tybase(exprtype(n->expr.args[i]))->type == Tyvoid)
 			continue;
-		lappend(&args, &nargs, rval(s, n->expr.args[i], NULL));
+		lappend(&args, &nargs, wholewords(s, rval(s, n->expr.args[i], NULL)));
 		if (exprop(n->expr.args[i]) == Oaddr)
 			if (exprop(n->expr.args[i]->expr.args[0]) == Ovar)
 				def(s, n->expr.args[i]->expr.args[0]);
-- 
2.43.0


From 42fe2331ca34a11477528f6bf7823b5541c0bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 32/44] fix: take the value of a left operand before a right
 operand changes it

---
 mi/flatten.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index c1f0a65..d9de961 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -181,14 +181,65 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 	return r;
 }
 
+/* can evaluating n change a variable? increments don't, until later */
+static int
+haseffect(Node *n)
+{
+	size_t i;
+
+	if (!n || n->type != Nexpr)
+		return 0;
+	switch (exprop(n)) {
+	case Ocall: case Oasn: case Oauto: case Opreinc: case Opredec:
+	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
+	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
+		return 1;
+	case Osize:
+		return 0;
+	default:
+		break;
+	}
+	if (haseffect(n->expr.idx))
+		return 1;
+	for (i = 0; i < n->expr.nargs; i++)
+		if (haseffect(n->expr.args[i]))
+			return 1;
+	return 0;
+}
+
+/* keeps the value that operand i has before the operands after it run */
+static Node *
+keepval(Flattenctx *s, Node *n, size_t i, Node *arg)
+{
+	Node *t;
+	Type *ty;
+
+	if (!arg || exprop(arg) == Olit || !arg->expr.type)
+		return arg;
+	ty = tybase(exprtype(arg));
+	if (!istysigned(ty) && !istyunsigned(ty) && !istyfloat(ty) && ty->type != Typtr)
+		return arg;
+	for (i++; i < n->expr.nargs; i++) {
+		if (!haseffect(n->expr.args[i]))
+			continue;
+		t = temp(s, arg);
+		append(s, asn(t, arg));
+		t->expr.idx = arg->expr.idx;
+		return t;
+	}
+	return arg;
+}
+
 static Node *
 visit(Flattenctx *s, Node *n)
 {
 	size_t i;
 	Node *r;
 
-	for (i = 0; i < n->expr.nargs; i++)
-		n->expr.args[i] = rval(s, n->expr.args[i]);
+	for (i = 0; i < n->expr.nargs; i++) {
+		r = rval(s, n->expr.args[i]);
+		n->expr.args[i] = keepval(s, n, i, r);
+	}
 	if (opispure[exprop(n)]) {
 		r = n;
 	} else {
-- 
2.43.0


From 9e738e01f1602aedd9f903581ca54759425de699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 33/44] fix: increment the place that an lvalue named, not
 where its own increments lead

---
 mi/flatten.c | 65 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index d9de961..ec3b0f1 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -181,6 +181,24 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 	return r;
 }
 
+/* does evaluating n queue increments? */
+static int
+hasinc(Node *n)
+{
+	size_t i;
+
+	if (!n || n->type != Nexpr)
+		return 0;
+	if (exprop(n) == Opostinc || exprop(n) == Opostdec)
+		return 1;
+	if (hasinc(n->expr.idx))
+		return 1;
+	for (i = 0; i < n->expr.nargs; i++)
+		if (hasinc(n->expr.args[i]))
+			return 1;
+	return 0;
+}
+
 /* can evaluating n change a variable? increments don't, until later */
 static int
 haseffect(Node *n)
@@ -194,6 +212,11 @@ haseffect(Node *n)
 	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
 	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
 		return 1;
+	case Otern: case Oland: case Olor:
+		/* operands that may be skipped apply their own increments */
+		if (hasinc(n))
+			return 1;
+		break;
 	case Osize:
 		return 0;
 	default:
@@ -207,6 +230,26 @@ haseffect(Node *n)
 	return 0;
 }
 
+/*
+ * keeps the place that an lvalue refers to before the increments queued
+ * by its operands are applied
+ */
+static Node *
+pinval(Flattenctx *s, Node *r, Node *n)
+{
+	Node *a, *p;
+
+	if (!hasinc(n))
+		return r;
+	a = mkexpr(r->loc, Oaddr, r, NULL);
+	a->expr.type = mktyptr(r->loc, exprtype(r));
+	p = temp(s, a);
+	append(s, asn(p, a));
+	a = mkexpr(r->loc, Oderef, p, NULL);
+	a->expr.type = exprtype(r);
+	return a;
+}
+
 /* keeps the value that operand i has before the operands after it run */
 static Node *
 keepval(Flattenctx *s, Node *n, size_t i, Node *arg)
@@ -686,12 +729,12 @@ rval(Flattenctx *s, Node *n)
 	 *      x = x + 1
 	 */
 	case Opostinc:
-		r = lval(s, args[0]);
+		r = pinval(s, lval(s, args[0]), args[0]);
 		t = asn(r, addk(r, 1));
 		lappend(&s->incqueue, &s->nqueue, t);
 		break;
 	case Opostdec:
-		r = lval(s, args[0]);
+		r = pinval(s, lval(s, args[0]), args[0]);
 		t = asn(r, subk(r, 1));
 		lappend(&s->incqueue, &s->nqueue, t);
 		break;
@@ -810,24 +853,6 @@ flattenblk(Flattenctx *s, Node *n)
 	s->curst = st;
 }
 
-/* does evaluating n queue increments? */
-static int
-hasinc(Node *n)
-{
-	size_t i;
-
-	if (!n || n->type != Nexpr)
-		return 0;
-	if (exprop(n) == Opostinc || exprop(n) == Opostdec)
-		return 1;
-	if (hasinc(n->expr.idx))
-		return 1;
-	for (i = 0; i < n->expr.nargs; i++)
-		if (hasinc(n->expr.args[i]))
-			return 1;
-	return 0;
-}
-
 /* init; while cond; body;;
  *    => init
  *       jmp :cond
-- 
2.43.0


From 9d9598aef1a15771dc7a2c475629eb14e0b3aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 34/44] fix: clean up after an iteration that ends in continue

---
 mi/flatten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index ec3b0f1..82aa102 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -1102,7 +1102,7 @@ flattentraititer(Flattenctx *s, Node *n)
 
 	s->inloop++;
 	l = s->loop;
-	s->loop.lcnt = lstep;
+	s->loop.lcnt = lclean;
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-- 
2.43.0


From 11ed1df29cacd51655a1dbc552f5f6ae011949ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 35/44] fix: do not put offsets of more than 32 bits into
 displacements

---
 6/isel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index 4a729ba..f829214 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -452,7 +452,8 @@ memloc(Isel *s, Node *e, Mode m)
 
 		if (b->type != Locreg)
 			b = inr(s, b);
-		if (o->type == Loclit) {
+		/* displacements are 32 bits and signed */
+		if (o->type == Loclit && scale*o->lit == (int32_t)(scale*o->lit)) {
 			l = locmem(scale*o->lit, b, NULL, m);
 		} else {
 			b = inr(s, b);
-- 
2.43.0


From 4afeb25402dbb3a6a919d9c931628c5f18c41629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 36/44] fix: do not count void arguments when looking for the
 variadic ones

---
 6/simp.c     | 3 ++-
 6/typeinfo.c | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index c482ee0..692e814 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1506,7 +1506,8 @@ simpinit(Simp *s, Node *f)
 	}
 
 	for (i = 0; i < f->func.nargs; i++) {
-		declarearg(s, f->func.args[i]);
+		if (tybase(decltype(f->func.args[i]))->type != Tyvoid)
+			declarearg(s, f->func.args[i]);
 	}
 	simp(s, f->func.body);
 
diff --git a/6/typeinfo.c b/6/typeinfo.c
index b570e00..3853b97 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -411,10 +411,14 @@ offset(Node *aggr, Node *memb)
 size_t
 countargs(Type *t)
 {
-	size_t nargs;
+	size_t nargs, i;
 
 	t = tybase(t);
-	nargs = t->nsub - 1;
+	/* void arguments aren't passed */
+	nargs = 0;
+	for (i = 1; i < t->nsub; i++)
+		if (tybase(t->sub[i])->type != Tyvoid)
+			nargs++;
 	if (classify(t->sub[0]) == ArgBig)
 		nargs++;
 	/* valists are replaced with hidden type parameter,
-- 
2.43.0


From 27dcbe862e41fdd54d5f26ea0c8776d3d177450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 37/44] fix: compare match trees of which only one has a
 default

A match in which one subtree covers all constructors and a like one has a
default besides crashed the compiler with a null dereference.
---
 mi/match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index fd443d1..d5f9fff 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -253,8 +253,8 @@ dtreusable(Dtree *dt, Node *load, Node **pat, size_t npat, Dtree **next, size_t
 			return 0;
 	}
 
-	if (dt->any == NULL && any == NULL)
-		return 1;
+	if (dt->any == NULL || any == NULL)
+		return dt->any == any;
 
 	if (dt->any->id != any->id)
 		return 0;
-- 
2.43.0


From 2cbaa2f654bc632af7ce78d8a0af94261fc8893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 38/44] fix: check the default edge of a match for completeness

A match whose default subtree left values out was accepted, and ran the
first arm for them.
---
 mi/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index d5f9fff..392d396 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -837,7 +837,7 @@ verifymatch(Dtree *t)
 		return 1;
 
 	ret = 0;
-	if (t->nnext == t->nconstructors || t->any)
+	if (t->nnext == t->nconstructors || (t->any && verifymatch(t->any)))
 		ret = 1;
 	for (i = 0; i < t->nnext; i++)
 		if (!verifymatch(t->next[i]))
-- 
2.43.0


From ca83f8f27dae9f2ef978e926560f394c2126bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 39/44] fix: a constant in a pattern is at the path of the
 value

The parts of a constant got paths that belong to other parts, so that arms
were dropped for a test of another part.
---
 mi/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index 392d396..223ea73 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -481,7 +481,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				fatal(dcl, "bad pattern %s:%s: unmatchable type", declname(dcl), tystr(ty));
 			if (!dcl->decl.init)
 				fatal(dcl, "bad pattern %s:%s: missing initializer", declname(dcl), tystr(ty));
-			addrec(fs, dcl->decl.init, val, mkpath(path, 0));
+			addrec(fs, dcl->decl.init, val, path);
 		} else {
 			asn = mkexpr(pat->loc, Oasn, pat, val, NULL);
 			asn->expr.type = exprtype(pat);
-- 
2.43.0


From 0b98f0065b6a8beb03a3d3bfd200ef721a0a7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 40/44] fix: what follows an or-pattern in a tuple, array or
 struct is for every alternative

The parts behind the or-pattern were compared for the first alternative only.
---
 mi/match.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 223ea73..a7f1994 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -445,6 +445,20 @@ frontierdup(Frontier *fs)
 }
 
 
+static void addrec(Frontier *fs, Node *pat, Node *val, Path *path);
+
+/* addall adds a subpattern to every alternative of a pattern seen so far: the frontiers from fs up to end */
+static void
+addall(Frontier *fs, Frontier *end, Node *pat, Node *val, Path *path)
+{
+	Frontier *next;
+
+	for (; fs != end; fs = next) {
+		next = fs->next;
+		addrec(fs, pat, val, path);
+	}
+}
+
 /* addrec generates a list of slots for a Frontier by walking a pattern tree.
  * It collects only the terminal patterns like union tags and literals.
  * Non-terminal patterns like tuple/struct/array help encode the path only.
@@ -457,9 +471,10 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 	Node *memb, *name, *tagid, *p, *v, *lit, *dcl, *asn, *deref;
 	Ucon *uc;
 	char *s;
-	Frontier *next;
+	Frontier *next, *end;
 
 	pat = fold(pat, 1);
+	end = fs->next;
 	switch (exprop(pat)) {
 	case Olor:
 		next = frontierdup(fs);
@@ -529,12 +544,12 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 		break;
 	case Otup:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
+			addall(fs, end, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Oarr:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
+			addall(fs, end, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Ostruct:
@@ -547,7 +562,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				memb = mkexpr(ty->sdecls[i]->loc, Ogap, NULL);
 				memb->expr.type = mty;
 			}
-			addrec(fs, memb, structmemb(val, name, mty), mkpath(path, i));
+			addall(fs, end, memb, structmemb(val, name, mty), mkpath(path, i));
 		}
 		break;
 	default:
-- 
2.43.0


From d16596c8233c117f454b7d59b3e216ab2f8b88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 41/44] fix: bind the variables of an or-pattern on every way
 to its arm

An alternative reached by default, one that needs no test, and the second
one of a loop's pattern left them unset.
---
 mi/match.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index a7f1994..5266d23 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -1050,7 +1050,7 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 
 	lappend(out, nout, dt->lbl);
 	for (i = 0; i < dt->nnext; i++) {
-		if (i == dt->nnext - 1 && dt->any) {
+		if (i == dt->nnext - 1 && dt->any && dt->any->ncap == 0) {
 			fail = dt->any->lbl;
 			emit = 0;
 		} else {
@@ -1082,6 +1082,7 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			lappend(out, nout, fail);
 	}
 	if (dt->any) {
+		lcat(out, nout, dt->any->cap, dt->any->ncap);
 		jmp = mkexpr(dt->loc, Ojmp, dt->any->lbl, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
@@ -1095,14 +1096,24 @@ genonematch(Node *pat, Node *val, Node *iftrue, Node *iffalse, Node ***out, size
 	Frontier **frontier;
 	size_t nfrontier;
 	Dtree *root;
+	size_t i;
 
 	ndtree = 0;
 	frontier = NULL;
 	nfrontier = 0;
 	genfrontier(0, val, pat, iftrue, &frontier, &nfrontier);
-	lcat(cap, ncap, frontier[0]->cap, frontier[0]->ncap);
+	/* as in gendtree: the alternatives of an or-pattern bind their captures themselves */
+	for (i = 0; i < nfrontier; i++) {
+		if (frontier[i]->hasorpat) {
+			frontier[i]->final->cap = frontier[i]->cap;
+			frontier[i]->final->ncap = frontier[i]->ncap;
+		} else {
+			lcat(cap, ncap, frontier[i]->cap, frontier[i]->ncap);
+		}
+	}
 	genfrontier(1, val, mkexpr(iffalse->loc, Ogap, NULL), iffalse, &frontier, &nfrontier);
 	root = compile(frontier, nfrontier);
+	lcat(out, nout, root->cap, root->ncap);
 	genmatchcode(root, out, nout);
 }
 
@@ -1124,6 +1135,7 @@ genmatch(Node *m, Node *val, Node ***out, size_t *nout)
 
 	endlbl = genlbl(m->loc);
 	dt = gendtree(m, val, lbl, nlbl);
+	lcat(out, nout, dt->cap, dt->ncap);
 	genmatchcode(dt, out, nout);
 
 	for (i = 0; i < npat; i++) {
-- 
2.43.0


From 2671a67545830e8abaad751c185de01706b7db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 42/44] fix: alternatives of an or-pattern may bind their
 variables in any order

---
 mi/match.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 5266d23..28989b0 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -942,7 +942,7 @@ gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 	Dtree *root;
 	Node **pat;
 	size_t npat;
-	size_t i, j;
+	size_t i, j, k;
 	Frontier **frontier, *cur, *last;
 	size_t nfrontier;
 	FILE *csv;
@@ -969,7 +969,11 @@ gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 			if (last->ncap != cur->ncap)
 				fatal(pat[cur->i], "number of wildcard variables in the or-patterns are not equal (%d != %d)", last->ncap, cur->ncap);
 			for (j = 0; j < cur->ncap; j++) {
-				if (!capcompatible(last->cap[j], cur->cap[j]))
+				/* alternatives may bind them in different orders */
+				for (k = 0; k < last->ncap; k++)
+					if (capcompatible(last->cap[k], cur->cap[j]))
+						break;
+				if (k == last->ncap)
 					fatal(pat[cur->i], "wildcard variables have different types in the or-patterns");
 			}
 		}
-- 
2.43.0


From 3479413a530a9de96d858e87c1120f3f15eda329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 43/44] fix: function literals in constant structs, arrays and
 unions are compiled

---
 6/simp.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 692e814..6a8a145 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1616,7 +1616,7 @@ simpfn(Simp *s, char *name, Node *dcl)
 	return fn;
 }
 
-static void
+static Node *
 extractsub(Simp *s, Node *e)
 {
 	size_t i;
@@ -1624,6 +1624,15 @@ extractsub(Simp *s, Node *e)
 
 	assert(e != NULL);
 	switch (exprop(e)) {
+	case Olit:
+		/* function literals become globals of their own */
+		if (e->expr.args[0]->lit.littype == Lfunc) {
+			sub = simpcode(s, e);
+			sub->expr.type = exprtype(e);
+			sub->expr.idx = e->expr.idx;
+			e = sub;
+		}
+		break;
 	case Oslice:
 		sub = e->expr.args[0];
 		extractsub(s, sub);
@@ -1639,15 +1648,16 @@ extractsub(Simp *s, Node *e)
 	case Oarr:
 	case Ostruct:
 		for (i = 0; i < e->expr.nargs; i++)
-			extractsub(s, e->expr.args[i]);
+			e->expr.args[i] = extractsub(s, e->expr.args[i]);
 		break;
 	case Oucon:
 		if (e->expr.nargs == 2)
-			extractsub(s, e->expr.args[1]);
+			e->expr.args[1] = extractsub(s, e->expr.args[1]);
 		break;
 	default:
 		break;
 	}
+	return e;
 }
 
 static void
-- 
2.43.0


From 1235110548de35f1a5850a988cb88351fcbf8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 44/44] fix: a deleted block's labels do not move to several
 blocks

---
 mi/cfg.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mi/cfg.c b/mi/cfg.c
index 6e9a6ad..e8e2dd4 100644
--- a/mi/cfg.c
+++ b/mi/cfg.c
@@ -112,7 +112,7 @@ addlabel(Cfg *cfg, Bb *bb, Node **nl, size_t i, Srcloc loc)
 void
 delete(Cfg *cfg, Bb *bb)
 {
-	size_t i, j;
+	size_t i;
 
 	if (bb == cfg->start || bb == cfg->end)
 		return;
@@ -123,8 +123,6 @@ delete(Cfg *cfg, Bb *bb)
 	for (i = 0; bsiter(bb->succ, &i); i++) {
 		bsunion(cfg->bb[i]->pred, bb->pred);
 		bsdel(cfg->bb[i]->pred, bb->id);
-		for (j = 0; j < bb->nlbls; j++)
-			strlabel(cfg, bb->lbls[j], cfg->bb[i]);
 	}
 	cfg->bb[bb->id] = NULL;
 }
-- 
2.43.0

