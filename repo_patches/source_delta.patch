From 0dd1506c5bc2efe6ebf73bf4b0311ae24d2246d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:01 +0000
Subject: [PATCH 01/44] fix: keep the end point of an evenly divisible range
 such as 0/0.3/0.1

---
 pygrt/C_extension/include/grt/common/util.h       | 13 +++++++++++++
 pygrt/C_extension/src/common/util.c               |  7 ++++++-
 pygrt/C_extension/src/dynamic/grt_kernel.c        |  6 +++---
 pygrt/C_extension/src/lamb/grt_lamb1.c            |  2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c         |  4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c          |  2 +-
 pygrt/C_extension/src/okada/grt_okada.c           |  2 +-
 pygrt/C_extension/src/static/grt_static_greenfn.c |  4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c     |  4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c        |  2 +-
 pygrt/C_extension/src/tools/grt_travt.c           |  2 +-
 11 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index 7e9ad7c..08f492a 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -49,6 +49,19 @@ char ** grt_string_from_file(FILE *fp, size_t *size);
  */
 real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values, char optname);
 
+/**
+ * 计算等间距范围 a1/a2/delta 的采样点数（含两端）
+ *
+ * 允许浮点舍入误差，避免 0/0.3/0.1 这类可整除的范围丢失终点
+ *
+ * @param[in]    a1       起点
+ * @param[in]    a2       终点，不小于起点
+ * @param[in]    delta    正间距
+ *
+ * @return   采样点数
+ */
+size_t grt_range_count(real_t a1, real_t a2, real_t delta);
+
 /**
  * 判断字符串是否由特定的若个字符组成（充分条件）
  * 
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..f188b8c 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -62,6 +62,11 @@ char ** grt_string_from_file(FILE *fp, size_t *size){
     return s_split;
 }
 
+size_t grt_range_count(real_t a1, real_t a2, real_t delta)
+{
+    return (size_t)floor((a2 - a1) / delta + 1e-6) + 1;
+}
+
 real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values, char optname)
 {
     real_t a1, a2, delta;
@@ -80,7 +85,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         if(a1 > a2){
             GRTRaiseError("-%c: start (%f) > end (%f).", optname, a1, a2);
         }
-        n = (size_t)floor((a2 - a1) / delta) + 1;
+        n = grt_range_count(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..250205a 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -266,7 +266,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = grt_range_count(a1, a2, df);
                     // 至少要有两个频率点，才能在程序中用差分计算 df
                     if(Ctrl->F.nf < 2){
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
@@ -315,7 +315,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
 
-                        Ctrl->C.nc = floor((a2-a1)/df) + 1;
+                        Ctrl->C.nc = grt_range_count(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
@@ -395,7 +395,7 @@ int kernel_main(int argc, char **argv)
     {
         Ctrl->C.cmin = 0.8 * vmin;
         Ctrl->C.cmax = vmax;
-        Ctrl->C.nc = floor((Ctrl->C.cmax - Ctrl->C.cmin)/Ctrl->C.dc) + 1;
+        Ctrl->C.nc = grt_range_count(Ctrl->C.cmin, Ctrl->C.cmax, Ctrl->C.dc);
         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
         for(size_t i=0; i<Ctrl->C.nc; ++i){
             Ctrl->C.c_phases[i] = Ctrl->C.cmin + Ctrl->C.dc*i;
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index c013de2..223a93c 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -111,7 +111,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(T, "t1(%f) > t2(%f).", a1, a2);
                     }
 
-                    Ctrl->T.nt = floor((a2-a1)/delta) + 1;
+                    Ctrl->T.nt = grt_range_count(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..290475b 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -259,7 +259,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = grt_range_count(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
@@ -374,7 +374,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                     }
                                 }
 
-                                Ctrl->W.nz = floor((a2-a1)/dif) + 1;
+                                Ctrl->W.nz = grt_range_count(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..79bfe61 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -289,7 +289,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = grt_range_count(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..e05d649 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -210,7 +210,7 @@ static void parse_axis(const char *text, char option, size_t *n, real_t **values
     if(sscanf(text, "%lf/%lf/%lf", &a1, &a2, &delta) != 3 || delta <= 0.0 || a1 > a2){
         GRTRaiseError("Error in \"-%c\". expected x1/x2/dx with x1 <= x2 and dx > 0. Use \"-h\" for help.\n", option);
     }
-    *n = (size_t)floor((a2 - a1) / delta) + 1;
+    *n = grt_range_count(a1, a2, delta);
     *values = (real_t *)calloc(*n, sizeof(real_t));
     if(*values == NULL) GRTRaiseError("failed to allocate receiver axis.");
     for(size_t i = 0; i < *n; ++i) (*values)[i] = a1 + i * delta;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 5ce7c6d..c143e89 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -467,7 +467,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = grt_range_count(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -490,7 +490,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = grt_range_count(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..f8ba7ae 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -494,7 +494,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = grt_range_count(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -517,7 +517,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = grt_range_count(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..9099742 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -212,7 +212,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = grt_range_count(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..5007bfc 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -171,7 +171,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             place++;
                         } while (place < 8);  // 最多小数点后 8 位
 
-                        Ctrl->R.nr = floor((a2-a1)/delta) + 1;
+                        Ctrl->R.nr = grt_range_count(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
-- 
2.43.0


From bf3920955dbfb326345c23770fb0dcaba62c8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 02/44] fix: only use index arithmetic on distances that really
 are uniform (static syn read out of bounds)

---
 pygrt/C_extension/src/static/stgrnlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 043d808..04fc54d 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -49,10 +49,10 @@ static void fill_rs_meta(STGRNLIB *lib)
     // 还未排序前，先判断是否是一个等距升序数组，便于加快后续查找
     lib->isUniform = (lib->nr > 2);
     lib->dr = (lib->nr > 1) ? (lib->rs[1] - lib->rs[0]) : 0.0;
-    for(size_t ir = 1; ir + 1 < lib->nr; ++ir){
-        if(fabs(2.0 * lib->rs[ir] - (lib->rs[ir - 1] + lib->rs[ir + 1])) > 1e-3
-           || lib->rs[ir - 1] >= lib->rs[ir]
-           || lib->rs[ir] >= lib->rs[ir + 1]){
+    if(lib->dr <= 0.0)  lib->isUniform = false;
+    // 查找时直接由 dr 计算序号，故每个震中距都须落在等距网格上
+    for(size_t ir = 1; lib->isUniform && ir < lib->nr; ++ir){
+        if(fabs(lib->rs[ir] - (lib->rs[0] + ir * lib->dr)) > 1e-8){
             lib->isUniform = false;
             break;
         }
-- 
2.43.0


From 2105f445193916b6316db9328647201f68bf38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 03/44] fix: name depth directories with full precision so
 distinct depths never share one

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 4 ++--
 pygrt/C_extension/src/modal/grt_modsum.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..03d7dcd 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -1122,8 +1122,8 @@ int greenfn_main(int argc, char **argv) {
             Ctrl->G.doDC = doDC;
             GRT_SAFE_FREE_PTR(Ctrl->D.s_depsrc);
             GRT_SAFE_FREE_PTR(Ctrl->D.s_deprcv);
-            GRT_SAFE_ASPRINTF(&Ctrl->D.s_depsrc, "%g", Ctrl->D.depsrc);
-            GRT_SAFE_ASPRINTF(&Ctrl->D.s_deprcv, "%g", Ctrl->D.deprcv);
+            GRT_SAFE_ASPRINTF(&Ctrl->D.s_depsrc, "%.15g", Ctrl->D.depsrc);
+            GRT_SAFE_ASPRINTF(&Ctrl->D.s_deprcv, "%.15g", Ctrl->D.deprcv);
             compute_greenfn_one(Ctrl);
         }
     }
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..7e3e6a3 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -666,8 +666,8 @@ int modsum_main(int argc, char **argv){
             Ctrl->G.doDC = doDC;
             GRT_SAFE_FREE_PTR(Ctrl->D.s_depsrc);
             GRT_SAFE_FREE_PTR(Ctrl->D.s_deprcv);
-            GRT_SAFE_ASPRINTF(&Ctrl->D.s_depsrc, "%g", Ctrl->D.depsrc);
-            GRT_SAFE_ASPRINTF(&Ctrl->D.s_deprcv, "%g", Ctrl->D.deprcv);
+            GRT_SAFE_ASPRINTF(&Ctrl->D.s_depsrc, "%.15g", Ctrl->D.depsrc);
+            GRT_SAFE_ASPRINTF(&Ctrl->D.s_deprcv, "%.15g", Ctrl->D.deprcv);
             compute_modsum_one(Ctrl, mod1d, eigmet, modelpath);
         }
     }
-- 
2.43.0


From b3ceadb583d73efb846359e5f1d341a122c9085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:27 +0000
Subject: [PATCH 04/44] fix: reject -S (or -Su) and -A without a number instead
 of silently using zero

---
 pygrt/C_extension/src/dynamic/grt_syn.c       | 4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..d70556c 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -296,7 +296,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 方位角
             case 'A':
                 Ctrl->A.active = true;
-                if(0 == sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
                     GRTBadOptionError(A, "");
                 };
                 if(Ctrl->A.azimuth < 0.0 || Ctrl->A.azimuth > 360.0){
@@ -318,7 +318,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index f8ba7ae..ba17ed1 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -362,7 +362,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
-- 
2.43.0


From 5f4d7098e72757bfd2bcaeb193bba0573a8160c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 05/44] fix: bound the circular convolution when the time
 function is longer than the trace

---
 pygrt/C_extension/src/dynamic/signals.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..c6035d6 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -134,6 +134,8 @@ void linear_convolve_time_function(float *arr, int nt, float dt, const char tfty
 
 void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool iscircular) {
     if(iscircular){
+        // 超出一个周期的部分对窗口内没有（因果）贡献，且会使下标越界
+        if(nh > nx)  nh = nx;
         for(int n=0; n<ny; ++n) {
             y[n] = 0.0;
             for(int k=0; k<nh; ++k) {
-- 
2.43.0


From 6c0684668130809b05cc98b64c36a3aff1ec30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/44] fix: do not create an empty last sub-fault when the
 fault length is a multiple of the requested size

---
 pygrt/C_extension/src/common/finite_fault.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..980b216 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -188,8 +188,9 @@ void grt_finite_fault_subdiv(
     if(*W <= 0.0 || *L <= 0.0){
         GRTRaiseError("fault along-dip/along-strike length must be positive (W=%.6g, L=%.6g).", *W, *L);
     }
-    *nW = GRT_MAX(1, (size_t)ceil(*W / dW));
-    *nL = GRT_MAX(1, (size_t)ceil(*L / dL));
+    // 恰好整除时商可能因舍入略大于整数，容差避免多出一个空的末块
+    *nW = GRT_MAX(1, (size_t)ceil(*W / dW - 1e-9));
+    *nL = GRT_MAX(1, (size_t)ceil(*L / dL - 1e-9));
 }
 
 
-- 
2.43.0


From d88a7c06c9f18195bb6586e4ebd83feefc7acd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:17 +0000
Subject: [PATCH 07/44] fix: match distance and depth selectors of syn within
 single precision of the stored headers

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index d70556c..0cdb75d 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -7,6 +7,8 @@
  * 
  */
 
+#include <float.h>
+
 #include "grt.h"
 
 // 防止被替换为虚数单位
@@ -571,10 +573,17 @@ static char *find_sac_in_dir(const char *dirpath)
 }
 
 
+/** 头段为单精度，数值较大时舍入误差超过绝对容差，需计入相对误差 */
+static bool same_real_value(real_t stored, real_t value, const real_t tolerance)
+{
+    return fabs(stored - value) <= tolerance + 2.0 * FLT_EPSILON * fabs(value);
+}
+
+
 static bool real_value_exists(const real_t *values, size_t nvalues, real_t value, const real_t tolerance)
 {
     for(size_t i = 0; i < nvalues; ++i){
-        if(fabs(values[i] - value) <= tolerance) return true;
+        if(same_real_value(values[i], value, tolerance)) return true;
     }
     return false;
 }
@@ -703,9 +712,9 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
         }
 
         SACTRACE *sac = grt_read_SACTRACE(sample, true);
-        bool depth_match = fabs(sac->hd.evdp - Ctrl->Depth.depsrc) <= match_tolerance
-            && fabs((-sac->hd.stel * 1e-3) - Ctrl->Depth.deprcv) <= match_tolerance;
-        bool dist_match = fabs(sac->hd.dist - Ctrl->R.dist) <= match_tolerance;
+        bool depth_match = same_real_value(sac->hd.evdp, Ctrl->Depth.depsrc, match_tolerance)
+            && same_real_value(-sac->hd.stel * 1e-3, Ctrl->Depth.deprcv, match_tolerance);
+        bool dist_match = same_real_value(sac->hd.dist, Ctrl->R.dist, match_tolerance);
         grt_free_SACTRACE(sac);
         GRT_SAFE_FREE_PTR(sample);
 
-- 
2.43.0


From da5119e1e9d3a033a0f0c4b51e9cf20f9a844139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:56 +0000
Subject: [PATCH 08/44] fix: frequency ranges that start above zero but below
 the step keep their start

---
 pygrt/C_extension/src/dynamic/grt_kernel.c | 6 ++----
 pygrt/C_extension/src/modal/grt_eigenfn.c  | 8 ++------
 pygrt/C_extension/src/modal/grt_eigenv.c   | 6 ++----
 pygrt/C_extension/src/tools/grt_disp2asc.c | 8 ++------
 4 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 250205a..26869f6 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -240,13 +240,11 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                     if(a1 < 0.0 || a2 <= 0.0){
                         GRTBadOptionError(F, "Can't set nonpositive f1(%lf), f2(%lf).", a1, a2);
                     }
+                    // 跳过零频（仅当起点为零时），其余起点保持不变
+                    if(a1 == 0.0)  a1 = df;
                     if(a1 > a2){
                         GRTBadOptionError(F, "f1(%lf) > f2(%lf).", a1, a2);
                     }
-
-                    // 跳过零频
-                    a1 = GRT_MAX(a1, df);
-                    a2 = GRT_MAX(a1, a2);
                     
                     // 处理 + 号指令
                     token = strtok(NULL, "+");
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 290475b..29c41ea 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -233,15 +233,11 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         if(a1 < 0.0 || a2 <= 0.0){
                             GRTBadOptionError(F, "Can't set nonpositive f1(%lf), f2(%lf).", a1, a2);
                         }
+                        // 跳过零频（仅当起点为零时），其余起点保持不变
+                        if(nscan == 3 && a1 == 0.0)  a1 = df;
                         if(a1 > a2){
                             GRTBadOptionError(F, "f1(%lf) > f2(%lf).", a1, a2);
                         }
-
-                        // 跳过零频
-                        if(nscan == 3){
-                            a1 = GRT_MAX(a1, df);
-                            a2 = GRT_MAX(a1, a2);
-                        }
                     }
 
                     bool isperiod = false;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 79bfe61..0a719ca 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -266,13 +266,11 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         if(a1 < 0.0 || a2 <= 0.0){
                             GRTBadOptionError(F, "Can't set nonpositive f1(%lf), f2(%lf).", a1, a2);
                         }
+                        // 跳过零频（仅当起点为零时），其余起点保持不变
+                        if(a1 == 0.0)  a1 = df;
                         if(a1 > a2){
                             GRTBadOptionError(F, "f1(%lf) > f2(%lf).", a1, a2);
                         }
-
-                        // 跳过零频
-                        a1 = GRT_MAX(a1, df);
-                        a2 = GRT_MAX(a1, a2);
                     }
                     
                     bool isperiod = false;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 9099742..1b3098e 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -186,15 +186,11 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         if(a1 < 0.0 || a2 <= 0.0){
                             GRTBadOptionError(F, "Can't set nonpositive f1(%lf), f2(%lf).", a1, a2);
                         }
+                        // 跳过零频（仅当起点为零时），其余起点保持不变
+                        if(nscan == 3 && a1 == 0.0)  a1 = df;
                         if(a1 > a2){
                             GRTBadOptionError(F, "f1(%lf) > f2(%lf).", a1, a2);
                         }
-
-                        // 跳过零频
-                        if(nscan == 3){
-                            a1 = GRT_MAX(a1, df);
-                            a2 = GRT_MAX(a1, a2);
-                        }
                     }
 
                     bool isperiod = false;
-- 
2.43.0


From e3d7098a53a07df58c41420d7570f434000b806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:56 +0000
Subject: [PATCH 09/44] fix: kernel refuses a non-positive phase velocity step
 instead of crashing

---
 pygrt/C_extension/src/dynamic/grt_kernel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 26869f6..12b53f8 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -309,6 +309,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         if(Ctrl->C.cmin <= 0.0 || Ctrl->C.cmax <= 0.0){
                             GRTBadOptionError(C, "Can't set nonpositive cmin(%lf), cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
+                        if(Ctrl->C.dc <= 0.0){
+                            GRTBadOptionError(C, "Can't set nonpositive dc(%lf).", Ctrl->C.dc);
+                        }
                         if(Ctrl->C.cmin >= Ctrl->C.cmax){
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
-- 
2.43.0


From a13e782f4eb6ed1a042790b3c41ce195ff51f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:22 +0000
Subject: [PATCH 10/44] fix: refuse list entries that are not numbers instead
 of reading them as zero

---
 pygrt/C_extension/include/grt/common/util.h | 10 ++++++++++
 pygrt/C_extension/src/common/util.c         | 13 ++++++++++++-
 pygrt/C_extension/src/tools/grt_travt.c     |  4 +++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index 08f492a..4607245 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -37,6 +37,16 @@ char ** grt_string_split(const char *string, const char *delim, size_t *size);
  */
 char ** grt_string_from_file(FILE *fp, size_t *size);
 
+/**
+ * 将字符串整体转为浮点数
+ *
+ * @param[in]    str      字符串
+ * @param[out]   value    数值
+ *
+ * @return   字符串是否恰为一个有限的数值（允许首尾空白）
+ */
+bool grt_string_to_real(const char *str, real_t *value);
+
 /**
  * 从逗号列表、等间距范围或文本文件中读取非负且严格升序的数值数组
  *
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index f188b8c..cc76e65 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -67,6 +67,15 @@ size_t grt_range_count(real_t a1, real_t a2, real_t delta)
     return (size_t)floor((a2 - a1) / delta + 1e-6) + 1;
 }
 
+bool grt_string_to_real(const char *str, real_t *value)
+{
+    char *end = NULL;
+    *value = strtod(str, &end);
+    if(end == str || !isfinite(*value))  return false;
+    while(isspace((unsigned char)*end))  end++;
+    return *end == '\0';
+}
+
 real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values, char optname)
 {
     real_t a1, a2, delta;
@@ -104,7 +113,9 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
 
     real_t *values = (real_t *)calloc(n, sizeof(real_t));
     for(size_t i = 0; i < n; ++i){
-        values[i] = atof(s_vals[i]);
+        if(!grt_string_to_real(s_vals[i], &values[i])){
+            GRTRaiseError("-%c: \"%s\" is not a number.", optname, s_vals[i]);
+        }
         if(values[i] < 0.0){
             GRTRaiseError("-%c: negative value (%f) is not supported.", optname, values[i]);
         }
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index 5007bfc..5d114cd 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -187,7 +187,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     // 转为浮点数
                     Ctrl->R.rs = (real_t*)realloc(Ctrl->R.rs, sizeof(real_t)*(Ctrl->R.nr));
                     for(size_t i=0; i<Ctrl->R.nr; ++i){
-                        Ctrl->R.rs[i] = atof(Ctrl->R.s_rs[i]);
+                        if(!grt_string_to_real(Ctrl->R.s_rs[i], &Ctrl->R.rs[i])){
+                            GRTBadOptionError(R, "\"%s\" is not a number.", Ctrl->R.s_rs[i]);
+                        }
                         if(Ctrl->R.rs[i] < 0.0){
                             GRTBadOptionError(R, "Can't set negative epicentral distance(%f).", Ctrl->R.rs[i]);
                         }
-- 
2.43.0


From b2c23b6d5a44bfa4bca236d7282abcb97e18a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:13 +0000
Subject: [PATCH 11/44] fix: greenfn accepts an absolute path as receiver depth
 file like it does for source depths

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 03d7dcd..95832d2 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -438,7 +438,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 if(optarg[0] == 's'){
                     Ctrl->D.s_active = true;
                     Ctrl->D.depsrcs = grt_parse_real_array(optarg + 1, &Ctrl->D.ndepsrc, NULL, 's');
-                } else if(optarg[0] == 'r' && optarg[1] != '/'){
+                } else if(optarg[0] == 'r'){
                     Ctrl->D.r_active = true;
                     Ctrl->D.deprcvs = grt_parse_real_array(optarg + 1, &Ctrl->D.ndeprcv, NULL, 'r');
                 } else {
-- 
2.43.0


From 6df63ea2668820d698bf6de90a8da0383edf40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:16 +0000
Subject: [PATCH 12/44] fix: treat depths within rounding of an interface as
 lying on it

---
 pygrt/C_extension/include/grt/common/const.h |  1 +
 pygrt/C_extension/src/common/model.c         | 14 +++++++++-----
 pygrt/C_extension/src/modal/grt_modsum.c     |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index f7b462a..9cb23ab 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -126,6 +126,7 @@ typedef double complex cplx_t;
 #define GRT_SRC_M_NUM    6   ///< 6, 代码中不同震源、不同阶数的个数
 #define GRT_MECHANISM_NUM   6   ///<  6, 描述震源机制的最多参数
 #define GRT_MODARR_NCOL  6   ///< 6, 模型矩阵列数：Thk, Va, Vb, Rho, Qa, Qb
+#define GRT_INTERFACE_TOL  1e-9   ///< (km) 与界面深度之差不超过该值时视为恰在界面上（累加层厚存在舍入误差）
 
 #define GRT_PTAM_PT_MAX   36         ///< 36， 最后统计波峰波谷的目标数量
 #define GRT_PTAM_WINDOW_SIZE  3      ///< 3，  使用连续点数判断是否为波峰或波谷
diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index 577838f..4e9e118 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -187,7 +187,7 @@ void grt_modarr_medium_at_depth(
     size_t i = 0;
     for(; i + 1 < nlayer; ++i){
         real_t bot = top + modarr[i][0];
-        if(depth <= bot) break;  // 恰在界面取上层
+        if(depth <= bot + GRT_INTERFACE_TOL) break;  // 恰在界面取上层
         top = bot;
     }
     if(va  != NULL) *va  = modarr[i][1];
@@ -250,9 +250,13 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
         for(int k=0; k<2; ++k){
             // 这里的判断设计使得 min(isrc, ircv) >= 1，即不可能为 0 层
             // 这里不能改，否则会影响后续计算 R/T 矩阵的循环
-            if(*pimg_idx == 0 && depth+h >= depimg && depsrc >= 0.0 && deprcv >= 0.0){
+            if(*pimg_idx == 0 && depth+h >= depimg - GRT_INTERFACE_TOL && depsrc >= 0.0 && deprcv >= 0.0){
+                // 累加厚度存在舍入误差，足够接近界面时视为恰在界面上
+                real_t h0 = GRT_MAX(depimg - depth, 0.0);
+                if(fabs(h - h0) <= GRT_INTERFACE_TOL)  h0 = h;
+
                 grt_realloc_mod1d(mod1d, nlay+1);
-                mod1d->Thk[nlay] = depimg - depth;
+                mod1d->Thk[nlay] = h0;
                 mod1d->Va[nlay] = va;
                 mod1d->Vb[nlay] = vb;
                 mod1d->Rho[nlay] = rho;
@@ -260,9 +264,9 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
                 mod1d->Qb[nlay] = qb;
                 mod1d->Qainv[nlay] = (qa > 0.0)? 1.0/qa : 0.0;
                 mod1d->Qbinv[nlay] = (qb > 0.0)? 1.0/qb : 0.0;
-                h = h - (depimg - depth);
+                h -= h0;
 
-                depth += depimg - depth;
+                depth += h0;
                 nlay++;
 
                 depimg = depmax;
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 7e3e6a3..ef76ba0 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -461,10 +461,10 @@ static void compute_modsum_one(
     mod1d->deprcv = Ctrl->D.deprcv;
     mod1d->ircvup = (Ctrl->D.depsrc >= Ctrl->D.deprcv);
     for(mod1d->isrc=0; mod1d->isrc < mod1d->n-1; ++mod1d->isrc){
-        if(mod1d->Dep[mod1d->isrc+1] >= Ctrl->D.depsrc)  break; 
+        if(mod1d->Dep[mod1d->isrc+1] >= Ctrl->D.depsrc - GRT_INTERFACE_TOL)  break; 
     }
     for(mod1d->ircv=0; mod1d->ircv < mod1d->n-1; ++mod1d->ircv){
-        if(mod1d->Dep[mod1d->ircv+1] >= Ctrl->D.deprcv)  break; 
+        if(mod1d->Dep[mod1d->ircv+1] >= Ctrl->D.deprcv - GRT_INTERFACE_TOL)  break; 
     }
 
     // 当震源位于液体层中时，仅允许计算爆炸源对应的格林函数
-- 
2.43.0


From b091d6834c9dc3b5963c83367cec69a42e9c9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:53 +0000
Subject: [PATCH 13/44] fix: correct the direct travel time for the remaining
 shooting offset

---
 pygrt/C_extension/src/common/travt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 8d741cb..c5c7190 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -103,7 +103,7 @@ real_t grt_compute_travt1d(
         }
         // 初始化一些迭代变量
         real_t pmin=0.0, pmax=pmax0;
-        real_t p;
+        real_t p = 0.0;
         real_t s, c, v, h;
         real_t x = 0.0;
         real_t t = 0.0;
@@ -138,7 +138,8 @@ real_t grt_compute_travt1d(
             // printf("iter=%d, t=%f\n", iter, t);
         } // 结束迭代
         
-        travt = t;
+        // 打靶所得震中距与目标值仍有微小偏差，走时对慢度取驻值，用一阶项修正
+        travt = t + p*(dist - x);
 
         // printf("direct wave in different layer, travt=%f\n", travt);
     }
-- 
2.43.0


From 1ec90349efaff5fd97b6923cba59b28c471f2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:53 +0000
Subject: [PATCH 14/44] fix: a slow head wave no longer ends the search for
 faster ones along deeper layers

---
 pygrt/C_extension/src/common/travt.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index c5c7190..08be340 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -210,9 +210,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // m到imin的双边
@@ -237,9 +234,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // printf("up m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
@@ -322,9 +316,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // m到imin的双边
@@ -349,9 +340,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // printf("down m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
-- 
2.43.0


From 1395a0bd99b51f94fe33a4fd3207c13e27ee4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:15 +0000
Subject: [PATCH 15/44] fix: halve the Nyquist bin before zero-padded
 upsampling of even-length traces

---
 pygrt/C_extension/include/grt/dynamic/grnspec.h |  3 +++
 pygrt/C_extension/src/dynamic/grnspec.c         | 12 ++++++++++++
 pygrt/C_extension/src/dynamic/grt_greenfn.c     |  3 +++
 pygrt/C_extension/src/modal/grt_modsum.c        |  3 +++
 4 files changed, 21 insertions(+)

diff --git a/pygrt/C_extension/include/grt/dynamic/grnspec.h b/pygrt/C_extension/include/grt/dynamic/grnspec.h
index 6f99efa..276dc7a 100644
--- a/pygrt/C_extension/include/grt/dynamic/grnspec.h
+++ b/pygrt/C_extension/include/grt/dynamic/grnspec.h
@@ -41,6 +41,9 @@ void grt_grnspec_allocate_u(GRNSPEC *grn);
 /** 释放 u, uiz, uir 的内存 */
 void grt_grnspec_free_u(GRNSPEC *grn);
 
+/** 将最后一个频点（Nyquist 频率）的频谱减半，用于补零升采样 */
+void grt_grnspec_halve_last_freq(GRNSPEC *grn);
+
 /**
  * 将频谱 u, uiz, uir 变换到时域后以 SAC 格式保存到本地
  * 
diff --git a/pygrt/C_extension/src/dynamic/grnspec.c b/pygrt/C_extension/src/dynamic/grnspec.c
index efbe80d..9f55e1d 100644
--- a/pygrt/C_extension/src/dynamic/grnspec.c
+++ b/pygrt/C_extension/src/dynamic/grnspec.c
@@ -45,6 +45,18 @@ void grt_grnspec_free_u(GRNSPEC *grn)
 
 
 
+void grt_grnspec_halve_last_freq(GRNSPEC *grn)
+{
+    for(size_t ir = 0; ir < grn->nr; ++ir){
+        GRT_LOOP_ChnlGrid(im, c){
+            grn->u[ir][im][c][grn->nf-1] *= 0.5;
+            if(grn->uiz)  grn->uiz[ir][im][c][grn->nf-1] *= 0.5;
+            if(grn->uir)  grn->uir[ir][im][c][grn->nf-1] *= 0.5;
+        }
+    }
+}
+
+
 /** 将一条数据反变换回时间域再进行处理，保存到SAC文件 */
 static void write_one_to_sac(
     const char *srcname, const char ch, GRT_FFTW_HOLDER *fh, const real_t wI, 
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 95832d2..cfe0eae 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -1013,6 +1013,9 @@ static void compute_greenfn_one(GRT_MODULE_CTRL *Ctrl) {
     grt_integ_grn_spec(mod1d, &KPROC, grn, !Ctrl->s.active);
     //==============================================================================
 
+    // 偶数点时最后一个频点为 Nyquist 频率，补零升采样后其共轭不再与自身重合，需减半
+    if(Ctrl->N.upsample_n > 1 && Ctrl->N.nt % 2 == 0)  grt_grnspec_halve_last_freq(grn);
+
     // 使用fftw3做反傅里叶变换，并保存到 SAC 
     // 其中考虑了升采样倍数
     GRT_FFTW_HOLDER *fh = grt_create_fftw_holder_C2R_1D(Ctrl->N.nt*Ctrl->N.upsample_n, Ctrl->N.dt/Ctrl->N.upsample_n, grn->nf, df);
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index ef76ba0..7c38575 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -527,6 +527,9 @@ static void compute_modsum_one(
     grt_modsum_grn_spec(mod1d, eigmet->wtype, eigfnmet, grn);
 
 
+    // 最后一个频点为 Nyquist 频率，补零升采样后其共轭不再与自身重合，需减半
+    if(Ctrl->W.upsample_n > 1)  grt_grnspec_halve_last_freq(grn);
+
     // 使用fftw3做反傅里叶变换，并保存到 SAC 
     // 其中考虑了升采样倍数
     GRT_FFTW_HOLDER *fh = grt_create_fftw_holder_C2R_1D(fft_nt*Ctrl->W.upsample_n, fft_dt/Ctrl->W.upsample_n, fft_nf, fft_df);
-- 
2.43.0


From a5b0d8767e135339f87e46eab4fd012c3134ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:15 +0000
Subject: [PATCH 16/44] fix: modsum uses the travel times of the true source
 and receiver depths in headers and -Ep

---
 pygrt/C_extension/src/modal/grt_modsum.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 7c38575..d3f0b4e 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -559,6 +559,9 @@ static void compute_modsum_one(
     real_t (*travtPS)[2] = (real_t (*)[2])calloc(grn->nr, sizeof(real_t)*2);
     real_t *begintimes = (real_t *)calloc(grn->nr, sizeof(real_t));
     char **outputdirs = (char **)calloc(grn->nr, sizeof(char *));
+    // 走时函数要求震源和台站位于层界面，此处模型未插入虚拟层，故从文件重新读入模型
+    real_t *travts = grt_compute_travt1d_from_file(modelpath, Ctrl->D.depsrc, Ctrl->D.deprcv, Ctrl->R.rs, Ctrl->R.nr);
+    if(travts == NULL)  exit(EXIT_FAILURE);
     for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
         real_t dist = Ctrl->R.rs[ir];
 
@@ -567,8 +570,8 @@ static void compute_modsum_one(
             Ctrl->O.s_output_dir, grt_get_basename(modelpath), Ctrl->D.s_depsrc, Ctrl->D.s_deprcv, Ctrl->R.s_rs[ir]);
 
         // 计算理论走时
-        travtPS[ir][0] = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
-        travtPS[ir][1] = grt_compute_travt1d(mod1d->Thk, mod1d->Vb, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
+        travtPS[ir][0] = travts[2*ir];
+        travtPS[ir][1] = travts[2*ir + 1];
 
         // 时间延迟
         {
@@ -577,7 +580,7 @@ static void compute_modsum_one(
                 delayT = Ctrl->E.delayT0;
                 if(Ctrl->E.delayV0 > 0.0)   delayT += hypot( dist, Ctrl->D.deprcv - Ctrl->D.depsrc ) / Ctrl->E.delayV0;
             } else {
-                delayT = Ctrl->E.delayT0 + sac->hd.t0;
+                delayT = Ctrl->E.delayT0 + travtPS[ir][0];
             }
             begintimes[ir] = delayT;
         }
@@ -602,6 +605,7 @@ static void compute_modsum_one(
         GRT_SAFE_FREE_PTR(outputdirs[ir]);
     }
     GRT_SAFE_FREE_PTR(outputdirs);
+    GRT_SAFE_FREE_PTR(travts);
     GRT_SAFE_FREE_PTR(travtPS);
     GRT_SAFE_FREE_PTR(begintimes);
     GRT_SAFE_FREE_PTR(grn->freqs);
-- 
2.43.0


From d8f49eda3a047d3c0ae4da26ad626481793c75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:00 +0000
Subject: [PATCH 17/44] fix: shoot the direct wave close enough for points
 metres apart

---
 pygrt/C_extension/src/common/travt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 08be340..3b14b7c 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -94,7 +94,7 @@ real_t grt_compute_travt1d(
         // 最大迭代次数
         const int nloop=50; 
         // 最小震中距差
-        const real_t minX=1e-3;
+        const real_t minX=1e-9;
         // 找到慢度上限，准确说是各层中最大慢度的最小值
         real_t pmax0=1.0/vmax;
         for(size_t i = imin; i <= imax; ++i){
-- 
2.43.0


From fac4cdd5fff1633e36a63eebe107a9fcb663d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:16 +0000
Subject: [PATCH 18/44] fix: do not take the flat low-wavenumber kernel of
 level source and receiver for its convergence

---
 pygrt/C_extension/src/integral/kmax.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pygrt/C_extension/src/integral/kmax.c b/pygrt/C_extension/src/integral/kmax.c
index 3b8628d..d0a8f61 100644
--- a/pygrt/C_extension/src/integral/kmax.c
+++ b/pygrt/C_extension/src/integral/kmax.c
@@ -49,6 +49,17 @@ static real_t _kmax_low(real_t kmax_init, real_t kmax_low, real_t kmax_ref)
 }
 
 
+/** 震源到最近界面（含自由表面，不含震源所在深度）的距离，没有则返回 0.0 */
+static real_t _nearest_interface(const MODEL1D *mod1d)
+{
+    real_t dmin = 0.0;
+    for(size_t i = 0; i < mod1d->n; ++i){
+        real_t d = fabs(mod1d->Dep[i] - mod1d->depsrc);
+        if(d > 0.0 && (dmin == 0.0 || d < dmin))  dmin = d;
+    }
+    return dmin;
+}
+
 /** 衰减到 0 */
 static real_t _decay_zero(
     MODEL1D_STATE *mstat, GRT_KernelFunc kerfunc,
@@ -183,6 +194,9 @@ real_t grt_predict_kmax(
     real_t kmax_init, real_t kmax_low, real_t kmax_ref, size_t *Ncount)
 {
     if(mstat->mod1d->depsrc == mstat->mod1d->deprcv){
+        // 小波数处核函数同样近似为常数，需待界面反射项 exp(-2kd) 衰减后才能判断收敛
+        real_t d = _nearest_interface(mstat->mod1d);
+        if(d > 0.0)  kmax_low = GRT_MAX(kmax_low, PI / d);
         return _decay_constant(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
     } else {
         return _decay_zero(mstat, kerfunc, kmax_init, kmax_low, kmax_ref, Ncount);
-- 
2.43.0


From b07bfa9926a293e98c42a90ea40539cf11a1ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 19/44] fix: subtract and restore the same constant when DCM is
 combined with FIM/SAFIM

The kernel at kmax was subtracted scaled by kcut in the DWM part and by kmax in
the Filon part, and added back scaled by kcut, which is 0 without +o: spatial
derivatives of level source and receiver came out as NaN.
---
 pygrt/C_extension/src/integral/dwm.c           | 2 +-
 pygrt/C_extension/src/integral/integ_process.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/dwm.c b/pygrt/C_extension/src/integral/dwm.c
index a5e2a21..5cacb3b 100644
--- a/pygrt/C_extension/src/integral/dwm.c
+++ b/pygrt/C_extension/src/integral/dwm.c
@@ -59,7 +59,7 @@ real_t grt_discrete_integ(
         }
 
         if(K->applyDCM){
-            grt_int_dcm_revision(kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
+            grt_int_dcm_revision(K->kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
         }
 
         // 记录积分核函数
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..ed8e1c4 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,8 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, kcut, Kint, !isFilon);
+        // 使用 Filon 积分时，仅 DWM 分段（0 至 kcut）计算过近场项
+        grt_dcm_correction(nr, rs, Kproc->dk, Kint->kmax, Kint, !isFilon || kcut > 0.0);
     }
 
 
-- 
2.43.0


From aa4f514d7027befcca470f50a3afc7a3b21dcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:43 +0000
Subject: [PATCH 20/44] fix: boundaries between layers of one material do not
 count as interfaces for kmax

---
 pygrt/C_extension/src/integral/kmax.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/integral/kmax.c b/pygrt/C_extension/src/integral/kmax.c
index d0a8f61..1ebfc63 100644
--- a/pygrt/C_extension/src/integral/kmax.c
+++ b/pygrt/C_extension/src/integral/kmax.c
@@ -54,6 +54,9 @@ static real_t _nearest_interface(const MODEL1D *mod1d)
 {
     real_t dmin = 0.0;
     for(size_t i = 0; i < mod1d->n; ++i){
+        // 两侧材料相同的分层不产生反射
+        if(i > 0 && mod1d->Va[i] == mod1d->Va[i-1] && mod1d->Vb[i] == mod1d->Vb[i-1] && mod1d->Rho[i] == mod1d->Rho[i-1])  continue;
+
         real_t d = fabs(mod1d->Dep[i] - mod1d->depsrc);
         if(d > 0.0 && (dmin == 0.0 || d < dmin))  dmin = d;
     }
-- 
2.43.0


From 4868fd10dd3c6523691e3a3128d1868e58a590e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 21/44] fix: SAFIM measures small kernels against the kernel
 before the DCM subtraction

With source and receiver level the kernel minus its limit is rounding noise, which
was bisected down to the smallest interval: static greenfn -D0/0 -L15+a1e-2 did not end.
---
 pygrt/C_extension/src/integral/safim.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/safim.c b/pygrt/C_extension/src/integral/safim.c
index b817540..d7c5a9c 100644
--- a/pygrt/C_extension/src/integral/safim.c
+++ b/pygrt/C_extension/src/integral/safim.c
@@ -404,7 +404,10 @@ real_t grt_sa_filon_integ(
             if(i>0){
                 get_maxabsQWV(Kitv_right.F3[i], maxabsQWV);
                 if(K->calc_upar)  get_maxabsQWV(Kitv_right.Fz3[i], maxabsQWV_uiz);
-            }  
+            }
+            // DCM 扣除常数后可能只剩舍入误差，故同时以扣除前的幅值为参考
+            get_maxabsQWV(Kitv_left.F3_raw[i], maxabsQWV);
+            if(K->calc_upar)  get_maxabsQWV(Kitv_left.Fz3_raw[i], maxabsQWV_uiz);
         }
 
         // 检查区间是否符合要求
-- 
2.43.0


From a5e1ce67a9fe371414f8dfb0510223a24c9ff66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:45 +0000
Subject: [PATCH 22/44] fix: FIM and SAFIM start where the interval of the last
 DWM sample ends

With +o half a step (SAFIM) or a Filon step less half a step (FIM) of the
integrand was left out at kcut, an error of 0.2 of the peak for some traces.
---
 pygrt/C_extension/src/integral/fim.c   | 2 ++
 pygrt/C_extension/src/integral/safim.c | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/fim.c b/pygrt/C_extension/src/integral/fim.c
index 4407fdd..8104e88 100755
--- a/pygrt/C_extension/src/integral/fim.c
+++ b/pygrt/C_extension/src/integral/fim.c
@@ -32,6 +32,8 @@ real_t grt_linear_filon_integ(
     // 从0开始，存储第二部分Filon积分的结果
     K_INTEG *K2 = grt_init_K_INTEG(K->calc_upar, nr);
 
+    // DWM 的最后一个采样点 k0 代表 [k0-dk0/2, k0+dk0/2]，使第一个采样点（k0+dk）位于其右端
+    if(k0 > 0.0)  k0 += 0.5*dk0 - dk;
     real_t k=k0; 
     
     // 所有震中距的k循环是否结束
diff --git a/pygrt/C_extension/src/integral/safim.c b/pygrt/C_extension/src/integral/safim.c
index d7c5a9c..1c4dd88 100644
--- a/pygrt/C_extension/src/integral/safim.c
+++ b/pygrt/C_extension/src/integral/safim.c
@@ -286,7 +286,8 @@ real_t grt_sa_filon_integ(
     size_t nr, real_t *rs, K_INTEG *K, FILE *fstats, GRT_KernelFunc kerfunc)
 {   
     
-    real_t kmin = k0 + dk0;
+    // DWM 的最后一个采样点 k0 代表 [k0-dk0/2, k0+dk0/2]，从其右端开始
+    real_t kmin = k0 + ((k0 > 0.0) ? 0.5 : 1.0) * dk0;
     if(kmin >= kmax)  return k0;
 
     // 从0开始，存储第二部分Filon积分的结果
-- 
2.43.0


From 3c81f5d0f8903157e634508d047e3c778915d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 23/44] fix: ker2asc refuses a file whose last record is
 incomplete

---
 pygrt/C_extension/include/grt/integral/iostats.h |  4 ++--
 pygrt/C_extension/src/integral/iostats.c         | 12 ++++++++----
 pygrt/C_extension/src/tools/grt_ker2asc.c        | 16 ++++++++++------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pygrt/C_extension/include/grt/integral/iostats.h b/pygrt/C_extension/include/grt/integral/iostats.h
index ac2a050..30cca46 100755
--- a/pygrt/C_extension/include/grt/integral/iostats.h
+++ b/pygrt/C_extension/include/grt/integral/iostats.h
@@ -36,7 +36,7 @@ void grt_write_stats(FILE *f0, real_t k, const cplxChnlGrid QWV);
  * @param[out]        af0    文本文件指针
  * @param[in]         col0_name    第一列名称，一般为 k 或 c
  * 
- * @return   0表示读取成功，-1表示读取结果/失败
+ * @return   0表示读取成功，-1表示读取结束，-2表示记录不完整
  */
 int grt_extract_stats(FILE *bf0, FILE *af0, const char *col0_name);
 
@@ -65,7 +65,7 @@ void grt_write_stats_ptam(
  * @param[in,out]     bf0    二进制文件指针，如果为NULL则打印标题
  * @param[out]        af0    文本文件指针
  * 
- * @return   0表示读取成功，-1表示读取结果/失败
+ * @return   0表示读取成功，-1表示读取结束，-2表示记录不完整
  */
 int grt_extract_stats_ptam(FILE *bf0, FILE *af0);
 
diff --git a/pygrt/C_extension/src/integral/iostats.c b/pygrt/C_extension/src/integral/iostats.c
index 156d43c..8fb1017 100755
--- a/pygrt/C_extension/src/integral/iostats.c
+++ b/pygrt/C_extension/src/integral/iostats.c
@@ -52,14 +52,16 @@ int grt_extract_stats(FILE *bf0, FILE *af0, const char *col0_name){
     real_t k;
     cplx_t val;
 
-    if(1 != fread(&k, sizeof(real_t), 1, bf0))  return -1;
+    // 仅在记录的边界处结束才是正常结束
+    size_t nbyte = fread(&k, 1, sizeof(real_t), bf0);
+    if(nbyte != sizeof(real_t))  return (nbyte == 0)? -1 : -2;
     fprintf(af0, GRT_REAL_FMT, k);
 
     GRT_LOOP_ChnlGrid(im, c){
         int modr = GRT_SRC_M_ORDERS[im];
         if(modr == 0 && GRT_QWV_CODES[c] == 'v')   continue;
         
-        if(1 != fread(&val, sizeof(cplx_t), 1, bf0))  return -1;
+        if(1 != fread(&val, sizeof(cplx_t), 1, bf0))  return -2;
         fprintf(af0, GRT_CMPLX_FMT, creal(val), cimag(val));
     }
 
@@ -122,9 +124,11 @@ int grt_extract_stats_ptam(FILE *bf0, FILE *af0){
         int modr = GRT_SRC_M_ORDERS[im];
         if(modr == 0 && v!=0 && v!=2)  continue;
 
-        if(1 != fread(&k, sizeof(real_t), 1, bf0))  return -1;
+        // 仅在记录的边界处结束才是正常结束
+        size_t nbyte = fread(&k, 1, sizeof(real_t), bf0);
+        if(nbyte != sizeof(real_t))  return (nbyte == 0 && im == 0 && v == 0)? -1 : -2;
         fprintf(af0, GRT_REAL_FMT, k);
-        if(1 != fread(&val, sizeof(cplx_t), 1, bf0))  return -1;
+        if(1 != fread(&val, sizeof(cplx_t), 1, bf0))  return -2;
         fprintf(af0, GRT_CMPLX_FMT, creal(val), cimag(val));
     }
 
diff --git a/pygrt/C_extension/src/tools/grt_ker2asc.c b/pygrt/C_extension/src/tools/grt_ker2asc.c
index c72659a..d59f7ec 100644
--- a/pygrt/C_extension/src/tools/grt_ker2asc.c
+++ b/pygrt/C_extension/src/tools/grt_ker2asc.c
@@ -64,11 +64,13 @@ static void print_K(FILE *fp, const char *col0_name){
     fprintf(stdout, "\n");
     
     // 读取数据    
-    while (true) {
-        if(0 != grt_extract_stats(fp, stdout, col0_name))  break;
-
+    int ret;
+    while ((ret = grt_extract_stats(fp, stdout, col0_name)) == 0) {
         fprintf(stdout, "\n");
     }
+    if(ret != -1){
+        GRTRaiseError("The last record of the file is incomplete.\n");
+    }
 }
 
 /**
@@ -82,11 +84,13 @@ static void print_PTAM(FILE *fp){
     fprintf(stdout, "\n");
     
     // 读取数据    
-    while (true) {
-        if(0 != grt_extract_stats_ptam(fp, stdout))  break;
-
+    int ret;
+    while ((ret = grt_extract_stats_ptam(fp, stdout)) == 0) {
         fprintf(stdout, "\n");
     }
+    if(ret != -1){
+        GRTRaiseError("The last record of the file is incomplete.\n");
+    }
 
 }
 
-- 
2.43.0


From ac1220e42bdbbe807ee0fa297546ec9237234746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 24/44] fix: eigenfn and disp2asc apply +p to the frequency
 range -F<f1>/<f2>+p

---
 pygrt/C_extension/src/modal/grt_eigenfn.c  | 5 +++--
 pygrt/C_extension/src/tools/grt_disp2asc.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 29c41ea..2ace402 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -269,8 +269,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        // 周期范围 [a1, a2] 对应频率范围 [1/a2, 1/a1]
+                        Ctrl->F.freqs[0] = isperiod ? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod ? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 1b3098e..1ad8013 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -222,8 +222,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         // 只约束最大值和最小值，内存申请由读取频散文件的过程中进行
                         Ctrl->F.nf = 2;
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
-                        Ctrl->F.freqs[0] = a1;
-                        Ctrl->F.freqs[1] = a2;
+                        // 周期范围 [a1, a2] 对应频率范围 [1/a2, 1/a1]
+                        Ctrl->F.freqs[0] = isperiod ? 1.0/a2 : a1;
+                        Ctrl->F.freqs[1] = isperiod ? 1.0/a1 : a2;
                         Ctrl->F.def_range = true;
                     }
                     
-- 
2.43.0


From 9a9d9525aee5ee910fe1a42f641df8e4b7398fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 25/44] fix: group sensitivity does not read modes absent at
 the next frequency

---
 pygrt/C_extension/src/modal/modal_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 30edb05..998a09f 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -145,7 +145,7 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
                 for(int ia = 0; ia < GRT_SNSTVTY_MAX; ++ia){
                     // 计算相速度敏感核在频率上的差分
                     real_t ddCdwdX = 0.0;
-                    if(iw < eigfnmet->nf-1){
+                    if(iw < eigfnmet->nf-1 && ic < eigfnmet->eigv[iw+1].n){
                         EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw+1][ic];
 
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
-- 
2.43.0


From ad14bc17230e0f06711462b11e66dc4e89214633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 26/44] fix: look up selected modes by their position in the
 dispersion file

---
 pygrt/C_extension/src/modal/modal_def.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modal_def.c b/pygrt/C_extension/src/modal/modal_def.c
index d609b4f..8b14266 100644
--- a/pygrt/C_extension/src/modal/modal_def.c
+++ b/pygrt/C_extension/src/modal/modal_def.c
@@ -124,10 +124,9 @@ void grt_filter_eigenfn_info(
 
         EIGENV *in_eigv = &eigmet->eigv[iw];
         for(size_t i = 0; i < eigfnmet->nmode; ++i){
-            size_t mode = eigfnmet->modes[i];
-            if(mode >= in_eigv->n) break;
-
+            // 输入文件的阶数可能不从 0 开始（例如群速度文件），应以其位置判断该频率下是否存在该阶
             size_t idx = idxs_modes[i];
+            if(idx >= in_eigv->n) break;
 
             eigvtmp->c_roots[eigvtmp->n] = in_eigv->c_roots[idx];
             eigvtmp->u_roots[eigvtmp->n] = in_eigv->u_roots[idx];
-- 
2.43.0


From 61157a4793775796672e52fa01b4331453032e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 27/44] fix: report -N/-F selections that match nothing in the
 dispersion file

---
 pygrt/C_extension/src/modal/modal_def.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygrt/C_extension/src/modal/modal_def.c b/pygrt/C_extension/src/modal/modal_def.c
index 8b14266..21633a3 100644
--- a/pygrt/C_extension/src/modal/modal_def.c
+++ b/pygrt/C_extension/src/modal/modal_def.c
@@ -8,6 +8,7 @@
 
 #include "grt/modal/modal_def.h"
 #include "grt/common/search.h"
+#include "grt/common/checkerror.h"
 
 void grt_free_eigenv(EIGENV *eigv)
 {
@@ -142,5 +143,12 @@ void grt_filter_eigenfn_info(
     }
     eigfnmet->freqs = (real_t *)realloc(eigfnmet->freqs, sizeof(real_t)*eigfnmet->nf);
 
+    if(eigfnmet->nmode == 0){
+        GRTRaiseError("None of the modes selected by -N exists in the dispersion file.\n");
+    }
+    if(eigfnmet->nf == 0){
+        GRTRaiseError("None of the frequencies selected by -F exists in the dispersion file.\n");
+    }
+
     GRT_SAFE_FREE_PTR(idxs_modes);
 }
-- 
2.43.0


From 41b2f5732533115df7796e676410a10cd5a68bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 28/44] fix: frequency ranges include end points that differ
 only by rounding

---
 pygrt/C_extension/src/modal/modal_def.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/modal_def.c b/pygrt/C_extension/src/modal/modal_def.c
index 21633a3..c4c5e45 100644
--- a/pygrt/C_extension/src/modal/modal_def.c
+++ b/pygrt/C_extension/src/modal/modal_def.c
@@ -105,7 +105,7 @@ void grt_filter_eigenfn_info(
             match = true;
         }
         else if(def_freq_range){
-            match = (in_freqs[iw] >= freqs[0] && in_freqs[iw] <= freqs[1]);
+            match = (in_freqs[iw] > freqs[0] - 1e-8 && in_freqs[iw] < freqs[1] + 1e-8);
         }
         else {
             size_t idx = grt_findClosest_real_t(freqs, nf, in_freqs[iw]);
-- 
2.43.0


From 7a3950a011f8680f2eeb0fc6b49590ba28a24baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 29/44] fix: keep columns of ker2asc apart for exponents of
 three digits

---
 pygrt/C_extension/include/grt/common/const.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index 9cb23ab..77f33b8 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -64,8 +64,8 @@ typedef double complex cplx_t;
 
 #define GRT_STRING_FMT "%18s"  ///< 字符串输出格式
 #define GRT_REAL_FMT "%18.8e"  ///< 浮点数输出格式
-#define GRT_CMPLX_FMT "%18.8e%16.8e"   ///< 复数输出格式
-#define GRT_STR_CMPLX_FMT "%34s"    ///< 与复数格式同长度的字符串输出格式
+#define GRT_CMPLX_FMT "%18.8e%18.8e"   ///< 复数输出格式
+#define GRT_STR_CMPLX_FMT "%36s"    ///< 与复数格式同长度的字符串输出格式
 #define GRT_STRING_LONG_FMT "%25s"  ///< 字符串输出格式（更长）
 #define GRT_REAL_LONG_FMT "%25.16e"  ///< 浮点数输出格式（更长）
 #define GRT_CMPLX_LONG_FMT "%25.16e %25.16e"   ///< 复数输出格式（更长）
-- 
2.43.0


From e6c9ba52d1f991d06105980a5d7e34cfdb1e7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 30/44] fix: okada scales the tensile point source as syn and
 static syn do

---
 pygrt/C_extension/src/okada/grt_okada.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index e05d649..3ba3587 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -412,7 +412,8 @@ static void add_point_source(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PAR
         pot1 = scalar * cos(ctrl->M.rake * DEG1);
         pot2 = scalar * sin(ctrl->M.rake * DEG1);
     } else {
-        pot3 = ctrl->S.mult_src_mu ? ctrl->S.value * medium->mu / medium->lambda : ctrl->S.value / medium->lambda;
+        // 与 syn/static_syn 一致，张裂源的标量地震矩同样为 mu*面积*开度
+        pot3 = scalar;
     }
 
     // Okada 点源输出的位移和偏导分别需要乘以 1e-10 和 1e-15
-- 
2.43.0


From 27b3675462540c693745867add111c05bf327a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 31/44] fix: compute_syn returns only the traces its command
 wrote

The result was read back with output_path/*.sac, which also picks up the
traces of an earlier synthesis in the same directory (N/E beside R/T,
derivatives, sig.sac) and strain/rotation/stress results. Paths containing
glob characters could not be read back at all.
---
 pygrt/pymod.py | 16 ++++++++++++++--
 pygrt/utils.py |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pygrt/pymod.py b/pygrt/pymod.py
index ff6d37e..d5a0469 100755
--- a/pygrt/pymod.py
+++ b/pygrt/pymod.py
@@ -9,6 +9,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 import warnings
 from ctypes import c_size_t, cast, c_void_p
@@ -17,7 +18,7 @@ from typing import Dict, Iterable, Optional, Sequence, Union
 
 import numpy as np
 import numpy.ctypeslib as npct
-from obspy import read
+from obspy import Stream, read
 
 from .cli import format_float, format_range, run_grt
 from .c_interfaces import C_grt_compute_travt1d_from_file, C_grt_free, PREAL
@@ -718,7 +719,18 @@ class PyModel1D:
 
         run_grt(list(command.values()))
         if return_result:
-            return read(str(output / "*.sac"))
+            # Read only what this command wrote: the directory may also hold
+            # traces of an earlier synthesis, or strain/rotation/stress results.
+            chs = "ZNE" if zne else "ZRT"
+            names = list(chs)
+            if calc_upar:
+                names += [f"{d.lower()}{ch}" for d in chs for ch in chs]
+            if time_function is not None:
+                names.append("sig")
+            result = Stream()
+            for name in sorted(names):
+                result += read(glob.escape(str(output / f"{name}.sac")))
+            return result
         return None
 
     def compute_static_syn(
diff --git a/pygrt/utils.py b/pygrt/utils.py
index 8eb5943..b1ac58a 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -290,7 +290,7 @@ def _postprocess(path: PathLike, module: str, return_result: bool):
     if path.is_dir():
         run_grt([module, path])
         # 动态结果只能靠文件名前缀区分 strain/rotation/stress
-        return read(str(path / f"{module}_*.sac")) if return_result else None
+        return read(glob.escape(str(path)) + f"/{module}_*.sac") if return_result else None
     if path.is_file():
         run_grt(["static", module, path])
         return read_static_nc(path) if return_result else None
-- 
2.43.0


From b4a09f3e208b066d09ae1e037cfbc221b555f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 32/44] fix: eigenv searches below the Rayleigh velocity of the
 slowest layer

The lower end of the phase velocity search for Rayleigh waves came from the
half-space Rayleigh velocity of the first solid layer alone. With a slower
layer beneath it the fundamental mode can travel below 0.95 of that, was not
found, and every mode order was off by one.
---
 pygrt/C_extension/src/modal/root.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 1b31c72..e3038a5 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -694,6 +694,11 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                 real_t target = grt_halfspace_Rayleigh_croot(mstat, iy);
                 cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
                 grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                // 浅部有低速层时，基阶 Rayleigh 波可慢于首层的估计根，搜索下限取所有固体层中的最小值
+                for(size_t i = iy+1; i < mstat->mod1d->n; ++i){
+                    if(mstat->mod1d->isLiquid[i])  continue;
+                    target = GRT_MIN(target, grt_halfspace_Rayleigh_croot(mstat, i));
+                }
                 target *= 0.95;
                 grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
             }
-- 
2.43.0


From 06c2f3d1078c3d1fb7051cd35747c0736bf06d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 33/44] fix: eigenv does not sample exactly at the layer's
 Rayleigh velocity

---
 pygrt/C_extension/src/modal/root.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index e3038a5..32c5c05 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -691,7 +691,8 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                 if(! mstat->mod1d->isLiquid[iy]) break;
             }
             if(iy < mstat->mod1d->n){
-                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy);
+                // 略偏离估计根：正好位于该处时自由表面的反射系数矩阵奇异，久期函数失真，会误判为零点
+                real_t target = grt_halfspace_Rayleigh_croot(mstat, iy) * (1.0 - 1e-6);
                 cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
                 grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 // 浅部有低速层时，基阶 Rayleigh 波可慢于首层的估计根，搜索下限取所有固体层中的最小值
-- 
2.43.0


From bbd341f2416fe72754c1832823eb5d08dc159383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 34/44] fix: eigenv keeps the sea-bottom secular function
 continuous at 1 km/s

---
 pygrt/C_extension/src/modal/secular.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/secular.c b/pygrt/C_extension/src/modal/secular.c
index e941bca..e327918 100644
--- a/pygrt/C_extension/src/modal/secular.c
+++ b/pygrt/C_extension/src/modal/secular.c
@@ -458,8 +458,10 @@ void grt_secular_function_potential_Rayl(
                + R3[0][2] * (R3[1][0] * R3[2][1] - R3[1][1] * R3[2][0]);
 
         // 适当调整幅值
-        if(cphase < cref && cphase > 1.0){
-            *psec /= 4.0*cphase*cphase;
+        // 须保持久期函数在 c=1.0 处连续，否则零点附近的幅值跳变会使其丢失
+        if(cphase < cref){
+            real_t cc = GRT_MAX(cphase, 1.0);
+            *psec /= 4.0*cc*cc;
         }
 
         // 返回对应的垂直波函数
-- 
2.43.0


From e16062d059fd0e9adf0e70ac28c2becbe968c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:36 +0000
Subject: [PATCH 35/44] fix: eigenv searches below the Scholte velocity of the
 slowest layer

---
 pygrt/C_extension/src/modal/root.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 32c5c05..ef85178 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -721,6 +721,11 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
                     real_t target = grt_halfspace_Scholte_croot(mstat, iref_liquid, iref_solid);
                     cpred = (real_t *)realloc(cpred, sizeof(real_t)*(npred+2));
                     grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
+                    // 同 Rayleigh 波，搜索下限取所有固体层中的最小值
+                    for(size_t i = 0; i < mstat->mod1d->n; ++i){
+                        if(isLiquid[i])  continue;
+                        target = GRT_MIN(target, grt_halfspace_Scholte_croot(mstat, iref_liquid, i));
+                    }
                     target *= 0.95;
                     grt_insertOrdered(cpred, &npred, npred+1, &target, sizeof(real_t), true, grt_compare_real_t);
                 }
-- 
2.43.0


From 64d5222d7927a88d8d4a092920334765372895ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 36/44] fix: refuse empty option values instead of crashing

strtok() returns NULL for an empty (or '+'-only) value, which was then
passed to sscanf()/strlen(): -N of greenfn, -F of kernel, eigenv,
eigenfn and disp2asc, -X of eigenv, -W of eigenfn.
---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 2 +-
 pygrt/C_extension/src/dynamic/grt_kernel.c  | 2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c   | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c    | 4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index cfe0eae..8e399bc 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,7 +483,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
                     if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 12b53f8..b6a6928 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -231,7 +231,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    if(3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
+                    if(token == NULL || 3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
                         GRTBadOptionError(F, "");
                     };
                     if(df <= 0){
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 2ace402..9f84b0a 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -215,7 +215,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL) ? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -337,7 +337,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(strlen(token) == 0){
+                    if(token == NULL || strlen(token) == 0){
                         GRTBadOptionError(W, "");
                     }
                     Ctrl->W.s_egn_filepath = strdup(token);
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 0a719ca..cfd279a 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -248,7 +248,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL) ? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -308,7 +308,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
                     real_t fx = -1.0;
-                    if(1 != sscanf(token, "%lf", &fx)){
+                    if(token == NULL || 1 != sscanf(token, "%lf", &fx)){
                         GRTBadOptionError(X, "");
                     }
                     if(fx <= 0){
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 1ad8013..2d36cdd 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -168,7 +168,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL) ? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
-- 
2.43.0


From b47c0922e94a6d79d6109dc73999a297f24d506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 37/44] fix: refuse negative -N<nt> and -N+n<scale> in greenfn

%zu reads a negative number as a huge positive one, so the checks for
positive values never fired and the program crashed after it had
started to write.
---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 8e399bc..e702cc5 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,25 +483,30 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    long long nt = 0;
+                    if(token == NULL || 2 != sscanf(token, "%lld/%lf", &nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
-                    if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
+                    if(nt <= 0 || Ctrl->N.dt <= 0.0){
                         GRTBadOptionError(N, "Nonpositive value in -N is not supported.");
                     }
+                    Ctrl->N.nt = (size_t)nt;
 
                     // 处理 + 号指令
                     token = strtok(NULL, "+");
                     while(token != NULL){
                         switch (token[0]){
-                            case 'n':
-                                if(1 != sscanf(token+1, "%zu", &Ctrl->N.upsample_n)){
+                            case 'n': {
+                                long long upsample_n = 0;
+                                if(1 != sscanf(token+1, "%lld", &upsample_n)){
                                     GRTBadOptionError(N, "");
                                 }
-                                if(Ctrl->N.upsample_n <= 0){
-                                    GRTBadOptionError(N, "+%s need positive integer, but get (%zu).", token, Ctrl->N.upsample_n);
+                                if(upsample_n <= 0){
+                                    GRTBadOptionError(N, "+%s need positive integer, but get (%lld).", token, upsample_n);
                                 }
+                                Ctrl->N.upsample_n = (size_t)upsample_n;
                                 break;
+                            }
 
                             case 'w':
                                 if(1 != sscanf(token+1, "%lf", &Ctrl->N.zeta)){
-- 
2.43.0


From 67fa9e11e35192be943b17675056a2ea124f5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 38/44] fix: refuse an empty -E

sscanf() returns EOF, not 0, for an empty string.
---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 2 +-
 pygrt/C_extension/src/modal/grt_modsum.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index e702cc5..456b3c5 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -641,7 +641,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index d3f0b4e..a1312d1 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -345,7 +345,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
-- 
2.43.0


From 5db47f7c64e631f3011f685a9b5405dfe10e13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 39/44] fix: check the model file of greenfn and kernel before
 creating output

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 3 +++
 pygrt/C_extension/src/dynamic/grt_kernel.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 456b3c5..8bec8d3 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -807,6 +807,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     }
     Ctrl->D.active = true;
 
+    // 模型文件不存在时不产生任何输出
+    GRTCheckFileExist(Ctrl->M.s_modelpath);
+
     // 建立保存目录
     GRTCheckMakeDir(Ctrl->O.s_output_dir);
     grt_check_greenfn_output_dir(Ctrl->O.s_output_dir, Ctrl->M.s_modelname);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index b6a6928..fab0200 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -354,6 +354,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
     GRTCheckOptionActive(Ctrl, C);
     GRTCheckOptionActive(Ctrl, O);
 
+    // 模型文件不存在时不产生任何输出
+    GRTCheckFileExist(Ctrl->M.s_modelpath);
+
     // 建立保存目录
     GRTCheckMakeDir(Ctrl->O.s_output_dir);
 
-- 
2.43.0


From f858a5de7a1d34644a9fb5d18715f9ebb11023fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 40/44] fix: syn creates its output directory only when it has
 something to save

A time function refused for the sampling interval, missing Green's
functions or bad headers left an empty directory behind.
---
 pygrt/C_extension/src/dynamic/grt_syn.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 0cdb75d..8672d14 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -493,9 +493,6 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 
     resolve_syn_grn_path(Ctrl);
 
-    // 建立保存目录
-    GRTCheckMakeDir(Ctrl->O.s_output_dir);
-
     // 随机读取一个 sac，确定 dist 和 src_mu
     {
         struct dirent *entry;
@@ -1094,6 +1091,9 @@ int syn_main(int argc, char **argv)
         }
     }
 
+    // 建立保存目录
+    GRTCheckMakeDir(Ctrl->O.s_output_dir);
+
     // 保存到 SAC
     for(int i1 = 0; i1 < GRT_CHANNEL_NUM; ++i1){
         char pfx[20] = "";
-- 
2.43.0


From 2803da548740257709d896ad2a7da142a28d0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 41/44] fix: static greenfn refuses -R together with -X/-Y

-R and -X/-Y are alternatives.  Given together, the coordinates were
mixed and the result depended on the order of the options.
---
 pygrt/C_extension/src/static/grt_static_greenfn.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index c143e89..f7af126 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -80,6 +80,10 @@ typedef struct {
         size_t neast;
         real_t *easts;
     } Y;
+    /** -R: 震中距序列，保存到 X 和 Y 中 */
+    struct {
+        bool active;
+    } R;
     /** 输出 nc 文件名 */
     struct {
         bool active;
@@ -501,7 +505,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // -R：一维震中距序列，存成 nnorth=1, norths=[0], easts=R
             // -R<r1>,<r2>[,...]|<r1>/<r2>/<dr>|<file>
             case 'R':
-                Ctrl->X.active = Ctrl->Y.active = true;
+                Ctrl->R.active = true;
                 {
                     Ctrl->Y.easts = grt_parse_real_array(optarg, &Ctrl->Y.neast, NULL, 'R');
                     Ctrl->X.nnorth = 1;
@@ -533,6 +537,12 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     // 检查必须设置的参数是否有设置
     GRTCheckOptionSet(argc > 1);
     GRTCheckOptionActive(Ctrl, M);
+    if(Ctrl->R.active){
+        if(Ctrl->X.active || Ctrl->Y.active){
+            GRTRaiseError("Options -R and -X/-Y are mutually exclusive.");
+        }
+        Ctrl->X.active = Ctrl->Y.active = true;
+    }
     GRTCheckOptionActive(Ctrl, X);
     GRTCheckOptionActive(Ctrl, Y);
     GRTCheckOptionActive(Ctrl, O);
-- 
2.43.0


From 132b1b7ba7d961edeb934d48f3e1c6228b73e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 42/44] fix: check the model file of static greenfn before
 creating the statistics directory

---
 pygrt/C_extension/src/static/grt_static_greenfn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index f7af126..9bf3af5 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -749,6 +749,8 @@ int static_greenfn_main(int argc, char **argv){
 
     bool multi_depth = (Ctrl->D.ndepsrc > 1) || (Ctrl->D.ndeprcv > 1);
     if(Ctrl->S.active){
+        // 模型文件不存在时不产生任何输出
+        GRTCheckFileExist(Ctrl->M.s_modelpath);
         if(multi_depth){
             GRTRaiseWarning("-S is ignored for multi-depth STGRNLIB computation.");
         } else {
-- 
2.43.0


From 16084397fad91ae57f74800bd5cab8d2e3ca0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 43/44] fix: static greenfn refuses an empty output path before
 computing

---
 pygrt/C_extension/src/static/grt_static_greenfn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 9bf3af5..9763efb 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -517,6 +517,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出 nc 文件名
             case 'O':
                 Ctrl->O.active = true;
+                if(optarg[0] == '\0'){
+                    GRTBadOptionError(O, "Empty output path.");
+                }
                 Ctrl->O.s_outgrid = strdup(optarg);
                 break;
 
-- 
2.43.0


From 71002530d4f6bf589767e288239763a3bda8252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 44/44] fix: group-velocity sensitivity at the last frequency
 kept no frequency derivative

---
 pygrt/C_extension/src/modal/modal_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 998a09f..adadd56 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -151,6 +151,13 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
                         ddCdwdX /= eigfnmet->freqs[iw+1] - eigfnmet->freqs[iw];
                     }
+                    // 没有后一个频点时（最后一个频点，或该阶在后一个频点不存在），使用前一个频点
+                    else if(iw > 0 && ic < eigfnmet->eigv[iw-1].n){
+                        EIGENFN *eigfn_w0 = &eigfnmet->eigfn[iw-1][ic];
+
+                        ddCdwdX = eigfn->csens[iz][ia] - eigfn_w0->csens[iz][ia];
+                        ddCdwdX /= eigfnmet->freqs[iw] - eigfnmet->freqs[iw-1];
+                    }
                     
                     // 合并公式，计算群速度敏感核
                     eigfn->usens[iz][ia] = UoC * (2.0 - UoC) * eigfn->csens[iz][ia] + GRT_SQUARE(UoC) * eigfnmet->freqs[iw] * ddCdwdX;
-- 
2.43.0

