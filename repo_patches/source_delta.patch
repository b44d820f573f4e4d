From ef3d0bb76346e12f650b575f0dcafe4e7b19efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 01/76] fix: 2050: X0,B0,1SYL must test the base field for
 zero, not the opcode

EX of an RX/RS instruction with B2 = 0 added general register 0 to the
operand address whenever the subject opcode's high digit was non-zero.
---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..19ed6d8 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From 7ac574df0f788b37932b39288841b94ba2d6fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 02/76] fix: 2050: ED*FP sets stat 4 (result minus) by the
 documented rule

The expansion of the rule into cases was wrong, so floating add, subtract
and compare gave the wrong sign or condition code for some operands
(for example unnormalised ones).
---
 src/model2050/cpu2050.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 19ed6d8..81d4163 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3421,22 +3421,14 @@ cycle_2050()
                S3 = comp sign when S0 and S1 zero (Multiply or divide).
             */
             /* Stat 4 turned on:
-                   If S0 or S1 and right adder input bit 0 is 1, and carry out bit 1
+                   If S0 or S1 and right adder input bit 0 is 1, and no carry out bit 1
                    If S0 or S1 and carry out bit 1 and either adder left input 0 or S1.
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
-                s_update |= BIT4;     /* <-- */
-            }
-
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
+            if (((s_update & (BIT0|BIT1)) != 0 && !carry_out && t1) ||     /* <-- */
+                ((s_update & (BIT0|BIT1)) != 0 && carry_out &&
+                               (!t2 ^ ((s_update & BIT1) != 0))) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
                 s_update |= BIT4;     /* <-- */
-- 
2.43.0


From 1004c4c3c1c12da9ecd71feb590462a05d452ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/76] fix: 2050: keep storage and protection key accesses
 inside their arrays

A storage cycle or key access to an address beyond the configured storage
indexed M and MP out of bounds, and the upper half of a 512K machine aliased
the lower half.
---
 src/model2050/cpu2050.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 81d4163..ee34ec4 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -860,7 +860,7 @@ cycle_2050()
                     }
                  }
              }
-             SA = cpu_2050.SAR_REG & 0x3ffff;
+             SA = cpu_2050.SAR_REG & 0x7ffff;
 
 
              if (cpu_2050.init_mem | cpu_2050.init_bump_mem) {
@@ -888,7 +888,7 @@ cycle_2050()
         int       i;
         for (i = 0; i < 6; i++) {
             uint32_t pc = i + cpu_2050.IA_REG;
-            uint32_t mm = M[pc >> 2];
+            uint32_t mm = M[(pc & 0x7ffff) >> 2];
             mem[i] = (mm >> (8 * (3 - (pc & 3)))) & 0xff;
         }
 
@@ -2865,7 +2865,7 @@ cycle_2050()
     case 4:  /* D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                   cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                   cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2964,7 +2964,7 @@ cycle_2050()
     case 13:  /* SCAN->D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2996,14 +2996,14 @@ cycle_2050()
             /* Check storage protection */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
                 }
             } else {
                 if (cpu_2050.KEY != 0 &&
-                       cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                       cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                     cpu_2050.NROAR = STPR;
                     break;
                 }
@@ -3071,7 +3071,7 @@ cycle_2050()
               /* D*BI under I/O mode */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
@@ -3089,7 +3089,7 @@ cycle_2050()
     case 29:  /* D,BS gate D to SDR based on BS */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -3445,11 +3445,11 @@ cycle_2050()
             break;
 
     case 30: /* KEY->F */
-            cpu_2050.F_REG = cpu_2050.MP[cpu_2050.SAR_REG >> 11];
+            cpu_2050.F_REG = cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff];
             break;
 
     case 31: /* F->KEY */
-            cpu_2050.MP[cpu_2050.SAR_REG >> 11] = cpu_2050.F_REG;
+            cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff] = cpu_2050.F_REG;
             break;
 
     case 32: /* 1->LSGNS */
@@ -6316,7 +6316,9 @@ model2050_create(struct _option *opt)
     } else {
         msize = 64 * 1024;
     }
-    if ((M = (uint32_t *)calloc(msize/4, sizeof(uint32_t))) == NULL)
+    /* Allocate storage for every address the storage unit can be given, a
+       cycle to an address beyond mem_max can be started before it is rejected. */
+    if ((M = (uint32_t *)calloc((512 * 1024)/4, sizeof(uint32_t))) == NULL)
         return 0;
     mem_max = msize - 1;
     return 1;
-- 
2.43.0


From cc4151a2aa45ae5534d64a119321e29bf988d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/76] fix: 2050: ROS word 022 must branch on S0 (zero result
 test)

AW, AWR, SW and SWR treated every difference as zero: the zero test of
QG420 was followed by a word with a constant branch instead of S0.
---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..d5b5894 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From 9b2feeae3dacd166b8220893e61a41e41c66d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/76] fix: 2050: ED*FP stat 6 must use the sign of the
 exponent difference

A difference of 112 or more was taken to be smaller than 16, so the
operand with the tiny characteristic was added with a wrong alignment.
---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index ee34ec4..2447635 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3404,7 +3404,7 @@ cycle_2050()
                 s_update |= BIT7;
             /* Stat 6 turned on:
                    If abs(ED) < 16. */
-            if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
+            if ((t1 != 0 && (t & 0x70) == 0) || (t1 == 0 && (t & 0x70) == 0x70)) {
                 s_update |= BIT6;
             }
             t = (carries & CPOS0) != 0;
-- 
2.43.0


From be4d39737e8bdbf05f9ba6f61b3a702ed70874a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 06/76] fix: 2030: a store stopped by storage protection must
 end its storage cycle

The cycle was left open, so the trap came late: the following write put the
old R into the register or instruction address being read, and a byte that
had been read for modification was left cleared with bad parity.
---
 src/model2030/cpu2030.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..3c5c733 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -163,6 +163,7 @@ static int        first_mach_chk_req;
 static int        suppr_a_reg_chk;
 static int        mach_chk_pulse;
 static int        stg_prot_req;
+static int        stg_prot_store;    /* Protection check before storage was read */
 static int        inh_stg_prot;
 static int        mem_wrap_req;
 static int        i_wrap_cpu;
@@ -1042,6 +1043,7 @@ cycle_2030()
                protect_loc_cpu_or_mpx = 0;
                mem_prot = 0;
                stg_prot_req = 0;
+               stg_prot_store = 0;
                /* Check validity of M and N registers */
                if (((odd_parity[cpu_2030.M_REG & 0xff] ^ cpu_2030.M_REG) & 0x100) != 0 ||
                      ((odd_parity[cpu_2030.N_REG & 0xff] ^ cpu_2030.N_REG) & 0x100) != 0) {
@@ -1061,7 +1063,7 @@ cycle_2030()
                                  (((cpu_2030.Q_REG >> 4) ^ cpu_2030.Q_REG) & 0xf) != 0) {
                            protect_loc_cpu_or_mpx = 1;
                            if (sal->CM == 2)
-                              stg_prot_req = 1;
+                              stg_prot_req = stg_prot_store = 1;
                            log_mem("Protect check\n");
                        }
                    }
@@ -1103,9 +1105,14 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req && (stg_prot_store || mem_prot)) {
+                           /* Storage was not read, end the cycle so the trap is taken */
+                           cpu_2030.allow_write = 0;
+                           read_call = 0;
+                           inh_stg_prot = 0;
                            break;
-                       /* Fall through */
+                       }
+                       /* Fall through, R is unchanged after a protection check */
                case 0:       /* Write */
                       /* Do write to memory from this request */
                       if (cpu_2030.allow_write) {
-- 
2.43.0


From 7d825199d3ad5a399ab9b205c9838b074932226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 07/76] fix: 2050: setting a storage key beyond the end of
 storage must not change another block's key

---
 src/model2050/cpu2050.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 2447635..d215e2d 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3449,7 +3449,10 @@ cycle_2050()
             break;
 
     case 31: /* F->KEY */
-            cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff] = cpu_2050.F_REG;
+            /* There is no key for an address beyond the end of storage */
+            if ((cpu_2050.SAR_REG & 0xffffff) <= mem_max) {
+                cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff] = cpu_2050.F_REG;
+            }
             break;
 
     case 32: /* 1->LSGNS */
-- 
2.43.0


From 9deeb90972ac245d8c851f94de32a9f76aaefde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 08/76] fix: cancel_event must unlink an event from the middle
 of the list

The previous event kept pointing at the freed one.
---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From 108498dc0820af2d4af2833671328dd1f22d5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 09/76] fix: advance must unlink an event before running its
 callback

A callback that cancels the event being delivered freed it twice.
---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..0411e83 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Remove event before the callback, which can add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From c0a39c9726342f1395b45a8243320d6556a7b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 10/76] fix: get_model must not free its caller's options,
 overflow its buffers or keep the model of an earlier line

---
 src/conf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..344ead5 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,10 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+    /* Nothing of an earlier line applies to this one */
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
@@ -113,7 +117,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -133,7 +137,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
-- 
2.43.0


From bb2c1ff7b255f65d0e8192060aed71e85c089bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 11/76] fix: get_addr must bound the address it copies

---
 src/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 344ead5..ed07db5 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -190,9 +190,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < 19 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
-- 
2.43.0


From 2a001cc4649a5e0baee151720ec86349aafe5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 12/76] fix: get_string must stop at the end of the line, keep
 doubled quotes and leave room for the terminator

---
 src/conf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index ed07db5..be4c818 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -234,11 +234,17 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < 1023) {
+       /* Quoted string must end before the line does */
+       if (quote && (*line_ptr == '\n' || *line_ptr == '\0')) {
+           *p = '\0';
+           fprintf(stderr, "Missing closing quote on %s\n", opt->string);
+           return 0;
+       }
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
-               *p = '"';
+               *p++ = '"';
                line_ptr++;
                len++;
            } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
-- 
2.43.0


From 58406fee651e66ffb5831e9c33def8068a60d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 13/76] fix: the closing quote ends a quoted value whatever
 follows it

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index be4c818..dfb30ac 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -247,7 +247,7 @@ get_string(struct _option *opt)
                *p++ = '"';
                line_ptr++;
                len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           } else {
                *p = '\0';
                return 1;
            }
-- 
2.43.0


From b39ddb088178ac0b7bb481ddc89832bc597940d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 14/76] fix: get_option must get past separators and invalid
 characters and bound the option name

---
 src/conf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index dfb30ac..875e3f6 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -276,8 +276,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space, and the comma that can separate options */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -285,12 +285,16 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
        line_ptr++;
     }
+    /* Hand a character that can not be part of an option to the caller, so
+       that it is reported and not found again for ever */
+    if (len == 0)
+       *p++ = *line_ptr++;
     *p = '\0';
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
-- 
2.43.0


From 1e5929991c5a3eb1e48115af9d02d6c2c75b6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 15/76] fix: get_integer must reject numbers that do not fit

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 875e3f6..2344c56 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -320,7 +320,7 @@ get_integer(struct _option *opt, int *value)
     }
 
     for (p = &opt->string[0]; *p != 0; p++) {
-        if (isdigit(*p)) {
+        if (isdigit(*p) && *value <= (INT_MAX - 9) / 10) {
             *value = (*value * 10) + (*p - '0');
         } else {
             fprintf(stderr, "Option %s requires a number (%s)\n", opt->opt, opt->string);
-- 
2.43.0


From bf8ac7c908dbba42a2f239eb25474e5416e30f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 16/76] fix: the channel table must have an entry for every
 channel an address can name

---
 src/device/device.c | 2 +-
 src/device/device.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..c96e648 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -41,7 +41,7 @@ static char *state_tags[] = {
 
 
 struct _disk *disk = NULL;       /* Disk controllers */
-struct _device *chan[6];         /* Channels */
+struct _device *chan[8];         /* Channels */
 uint32_t      *M;
 uint32_t      mem_max;
 
diff --git a/src/device/device.h b/src/device/device.h
index 6d2abac..ca616e0 100644
--- a/src/device/device.h
+++ b/src/device/device.h
@@ -162,7 +162,7 @@ struct _control {
     unsigned int    magic;
 };
 
-extern device_t       *chan[6];         /* Channels */
+extern device_t       *chan[8];         /* Channels */
 extern struct _disk   *disk;            /* Disk controller that need to be run */
 
 void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out);
-- 
2.43.0


From 9c24c140a40ba937a48b34f2f7a501d51537f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 17/76] fix: 1442: BLANK=n must accept a number, not reject it

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 271c812..1720de9 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -98,7 +98,7 @@ model1442_create(struct _option *opt)
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) != 0)
+               if (get_integer(&opts, &num) == 0)
                    return 0;
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
-- 
2.43.0


From 0cc52db62d26a368c56c68199ec1860d3c91ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 18/76] fix: 2030: reject model letters whose storage size
 overflows

---
 src/model2030/model2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/model2030.c b/src/model2030/model2030.c
index b3d6ddc..8440c04 100644
--- a/src/model2030/model2030.c
+++ b/src/model2030/model2030.c
@@ -71,7 +71,7 @@ model2030_create(struct _option *opt)
 
     if (opt->model != '\0') {
         msize = 2048 << (opt->model - 'A');
-        if (msize > (64 * 1024)) {
+        if (opt->model < 'A' || opt->model > 'F') {
             return 0;
         }
     } else {
-- 
2.43.0


From 5a267e41ead96036be778cf16fd321ff547c06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 19/76] fix: get_model must read the whole of a long word

---
 src/conf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 2344c56..e69342e 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -117,7 +117,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/') {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -132,9 +132,12 @@ get_model(struct _option *opt)
            len = 0;
         /* Otherwise save it away */
         } else if (isalnum(*line_ptr)) {
-           *p = toupper(*line_ptr);
-            p++;
-            len++;
+            /* Ignore what does not fit */
+            if (len < 19) {
+                *p = toupper(*line_ptr);
+                p++;
+                len++;
+            }
         } else {
             fprintf(stderr, "Invalid character in option\n");
             return 0;
-- 
2.43.0


From 0e9d4995a5d30ed4308189d7c40091b8aaabb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 20/76] fix: card: characters past ASCII have no punch code, do
 not look them up past the tables

---
 src/device/card.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..dae6ae2 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii >= 128)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
@@ -440,7 +442,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = ((c & 0x80) != 0) ? 0xf000 : ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From 87351dbc1c2eb2fb1476d501541a17af5e5892d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 21/76] fix: card: the end of a ~ card must not skip the card
 after it

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index dae6ae2..1ff4565 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -382,6 +382,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 case '\0':
                 case '\r':
                     col = 80;
+                    i--;                /* End of line is skipped below */
+                    break;
                 case ' ':
                     break;              /* Ignore these */
                 case '\t':
-- 
2.43.0


From 5687ea2dea77da967969de76e7731826d1d3cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 22/76] fix: card: a short ~raw card leaves the rest of the
 card unpunched, it does not continue on the next line

---
 src/device/card.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 1ff4565..b2a9d7f 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -405,8 +405,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
-- 
2.43.0


From f25b99305201809d5962ef754bea285e8b8c30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 23/76] fix: card: an empty file holds no card

---
 src/device/card.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index b2a9d7f..7eb0232 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -673,6 +673,10 @@ read_deck(struct card_context *card_ctx, char *file_name)
                 buf.len += l;
         }
 
+        /* No card in an empty file */
+        if (buf.len == 0)
+            break;
+
         /* Allocate space for some more cards if needed */
         if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
             card_ctx->hopper_size += DECK_SIZE;
-- 
2.43.0


From ea182f0027134bf76d87bc03d994b48c78c6c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 24/76] fix: card: a binary card with only column 1 punched
 must be written as ~raw

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 7eb0232..892eb6c 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -560,7 +560,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                break;
         }
         /* Check if special card */
-        if (i == 0) {
+        if (i == 0 && ((*image)[0] == 07 || (*image)[0] == 015 || (*image)[0] == 017)) {
             out[outp++] = 'e';
             out[outp++] = 'o';
             if ((*image)[0] == 07) {
-- 
2.43.0


From ca02b34313c07bc5691d18f8cff35c5438665ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 25/76] fix: card: empty_cards must punch the cards that wait,
 not the space behind them

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 892eb6c..7985f5f 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -722,7 +722,7 @@ empty_cards(struct card_context *card_ctx)
     /* Flush any cards in hopper out to file */
     if (card_ctx->file != NULL) {
         while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
-            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_cards]);
+            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
         }
         fflush(card_ctx->file);
     }
-- 
2.43.0


From ca7be1885c28218042b4a4587231e7ddb1cbb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 26/76] fix: card: save_deck must not keep the name it has
 freed

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index 7985f5f..30dfb65 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -832,6 +832,7 @@ save_deck(struct card_context *card_ctx, char *file_name)
         fclose(card_ctx->file);
     }
     free(card_ctx->file_name);
+    card_ctx->file_name = NULL;
 
 	card_ctx->file = fopen(file_name, "wb");
 	if (card_ctx->file == NULL)
-- 
2.43.0


From 57ad6262965658495a686b04c2c25f8702a49714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 27/76] fix: ASCII | is EBCDIC 4F

---
 src/device/xlat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/xlat.c b/src/device/xlat.c
index 63eafab..fc0f81e 100644
--- a/src/device/xlat.c
+++ b/src/device/xlat.c
@@ -58,7 +58,7 @@ const uint8_t ascii_to_ebcdic[128] = {
    /*  p     q     r     s     t     u     v      w */
     0x97, 0x98, 0x99, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6,
    /*  x     y     z     {     |     }     ~   del */
-    0xa7, 0xa8, 0xa9, 0xc0, 0x47, 0xd0, 0xa1, 0x6d,
+    0xa7, 0xa8, 0xa9, 0xc0, 0x4f, 0xd0, 0xa1, 0x6d,
 };
 
 const uint8_t ebcdic_to_ascii[256] = {
-- 
2.43.0


From dc286a77685d76788bfb7d93046fc60603f1e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 28/76] fix: tape: a drive whose file cannot be opened must not
 come online

---
 src/device/tape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..12abf24 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -144,9 +144,9 @@ tape_attach(struct _tape_buffer *tape, char *file_name, int type, int ring, int
       tape->lrecl = 0;
       tape->srec = 0;
       tape->dirty = 0;
-      tape->format |= ONLINE|TAPE_BOT|ATTACHED;
       if ((tape->fd = open(file_name, flags, 0660)) < 0)
           return 0;
+      tape->format |= ONLINE|TAPE_BOT|ATTACHED;
       tape->file_name = strdup(file_name);
       return 1;
 }
-- 
2.43.0


From 30a2f2914f5f0dcb1a32cdd53bc8365cdb22331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 29/76] fix: tape: a write behind a full buffer that was only
 read must move on in the file

---
 src/device/tape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 12abf24..1fc48c5 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,9 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 85e40e20ea9dbb0c6524d6e6503010ea263db6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 30/76] fix: tape: rewinding leaves the end of the tape

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 1fc48c5..cc64d43 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -993,6 +993,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From 40500419d7ede0ae673e10d6b8a251c6d76a7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 31/76] fix: tape: the end of the file ends the last record of
 a P7B image

---
 src/device/tape.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index cc64d43..e0f9cb5 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -770,8 +770,13 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       if (r != TAPE_STATUS_OK) {
+                           /* End of file also ends the record */
+                           tape->lrecl = 2;
+                           return (r == TAPE_STATUS_EOT) ? TAPE_STATUS_EOB : r;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
-                       r = tape_readbk_byte(tape, data);
+                           r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
                            return TAPE_STATUS_EOB;
                        }
-- 
2.43.0


From 6c14002e3c99c522d26d7900cfde6d900065bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 32/76] fix: tape: finishing a record that the image cuts short
 must end

---
 src/device/tape.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e0f9cb5..7aa25cc 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -858,6 +858,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -926,6 +928,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         }
                         /* Read in 4 byte trailing record length logical record length */
@@ -967,7 +971,7 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* If not at end of record, read until IRG */
                         while (tape->lrecl != 2) {
                             r = tape_read_frame(tape, &lrecl[0]);
-                            if (r == TAPE_STATUS_FILE_ERROR)
+                            if (r == TAPE_STATUS_FILE_ERROR || r == TAPE_STATUS_BOT)
                                return r;
                         }
                         break;
-- 
2.43.0


From 14296c94c6aa18f7c82b73f03c7a80c8d52143e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 33/76] fix: 2050 multiplexor channel: skip flag, output
 residual count, chaining test, PCI of chained commands

---
 src/model2050/cpu2050.c | 67 ++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d215e2d..a0e130c 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4217,6 +4217,10 @@ channel:
                 if (cpu_2050.last_cycle && cpu_2050.CH == 3 && cpu_2050.BRC == 0) {
                     cpu_2050.ROUTINE[3] = 0x84;   /* RTA1 */
                     cpu_2050.break_in |= 8;
+                    /* Input with skip flag set */
+                    if ((cpu_2050.BFR2 & 0x10) != 0 && (cpu_2050.BFR2 & 0x6) == 0) {
+                        cpu_2050.BFR2 |= 0x03; /* Skip operator */
+                    }
                     cpu_2050.IOSTAT[3] = cpu_2050.BFR2 << 4;
                     cpu_2050.FLAGS_REG[3] = 0;
                 }
@@ -4320,7 +4324,13 @@ channel:
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                          log_trace("Status in\n");
-                         cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
+                         if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output, count last byte */
+                             cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                         } else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) {   /* Command Chain & SLI */
+                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
+                         } else {
+                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
+                         }
                          cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
@@ -4373,6 +4383,10 @@ channel:
                 /* A6 <- IB full, BR7 */
                 if (cpu_2050.last_cycle && cpu_2050.CH == 3) {
                     log_trace("RTA3 Last\n");
+                    /* PCI routine moves no data */
+                    if (cpu_2050.ROUTINE[3] == 0x02) {
+                        break;
+                    }
                     if (cpu_2050.FLAGS_REG[cpu_2050.CH] != 0) {
                         if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                             cpu_2050.TAGS[0] |= CHAN_CMD_OUT;
@@ -4381,38 +4395,37 @@ channel:
                         cpu_2050.break_in |= 8;
                         break;
                     }
-                    if ((cpu_2050.IOSTAT[3] & BIT0) != 0) {
-                         cpu_2050.MPX_PCI = 1;
-                    }
                     cpu_2050.BUS_OUT[0] = cpu_2050.BFR2 | odd_parity[cpu_2050.BFR2];
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
-                         if ((cpu_2050.IOSTAT[3] & BIT0) == 0) {
-                             cpu_2050.TAGS[0] |= CHAN_SRV_OUT;
-                         }
+                         cpu_2050.TAGS[0] |= CHAN_SRV_OUT;
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                           if ((cpu_2050.BFR2 & 0x60) == 0x60) { /* Command Chain & SLI */
+                           if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) { /* Command Chain & SLI */
                                cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                            } else {
                                cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                            }
                         cpu_2050.break_in |= 8;
+                    } else if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
+                        /* Last byte counted, save count */
+                        cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        cpu_2050.break_in |= 8;
                     }
-                    if ((cpu_2050.BRC == 7 && cpu_2050.MPX_LST) || cpu_2050.BRC == 5) {  /* End of output */
-                        if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
-                            cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
-                        } else {
-                            cpu_2050.ROUTINE[3] = 0x9c;  /* RTA7 */
-                        }
+                    else if ((cpu_2050.BRC == 7 && cpu_2050.MPX_LST) || cpu_2050.BRC == 5) {  /* End of output */
+                        cpu_2050.ROUTINE[3] = 0x9c;  /* RTA7 */
                         cpu_2050.break_in |= 8;
+                    } else if ((cpu_2050.IOSTAT[3] & BIT0) != 0) {
+                        cpu_2050.MPX_PCI = 1;
                     }
                     break;
                 }
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                        if ((cpu_2050.BFR1 & 0x60) == 0x60) {   /* Command Chain & SLI */
+                        if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output, count last byte */
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                        } else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) {   /* Command Chain & SLI */
                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                         } else {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
@@ -4420,6 +4433,10 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
+                        /* PCI routine restores operator without skip */
+                        if ((cpu_2050.LS[0x0e] & 0x10000000) != 0 && (cpu_2050.IOSTAT[3] & 0x60) == 0x00) {
+                            cpu_2050.IOSTAT[3] |= 0x30; /* Skip operator */
+                        }
                         if ((cpu_2050.IOSTAT[3] & 0x60) == 0x00) {   /* Input */
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
@@ -4441,7 +4458,11 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
-                        cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output, count last byte */
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                        } else {
+                            cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        }
                         cpu_2050.break_in |= 8;
                     }
                 }
@@ -4618,7 +4639,7 @@ channel:
                 /*  B3 <- (B2) (BR 4), status in */
                 /* Log out BR 1 */
                 if (cpu_2050.break_in == 0 && cpu_2050.break_out == 0 && cpu_2050.BRC == 4 && (cpu_2050.TAGS_IN[0] & (CHAN_STA_IN)) != 0) {
-                    if ((cpu_2050.IOSTAT[3]  & BIT3) != 0 && (cpu_2050.BFR2 & 0x7) == 0) { /* Skip */
+                    if ((cpu_2050.IOSTAT[3]  & BIT3) != 0 && (cpu_2050.BFR2 & 0x6) == 0) { /* Skip */
                         cpu_2050.BFR2 |= 0x03; /* Skip operator */
                     }
                     cpu_2050.ROUTINE[3] = 0xac; /* RTB3 */
@@ -4975,6 +4996,10 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
                             cpu_2050.break_in |= 8;
                             cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            if ((cpu_2050.LS[0x0e] & 0x10000000) != 0 && (cpu_2050.IOSTAT[3] & 0x60) == 0) {
+                                 cpu_2050.IOSTAT[3] |= 0x30; /* Skip operator */
+                                 cpu_2050.BI_REG = 0;
+                            }
                         }
                         if ((cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
                             cpu_2050.ROUTINE[3] = 0xb4; /* RTB5 */
@@ -4992,6 +5017,10 @@ channel:
                         }
                     }
                     if (cpu_2050.BRC == 6) {        /* Fetch next CCW */
+                            /* Copy PCI flag */
+                            if ((cpu_2050.LS[0x0e] & 0x08000000) != 0) {
+                                cpu_2050.IOSTAT[3] |= BIT0;
+                            }
                             cpu_2050.ROUTINE[3] = 0xa2;  /* RTD0 */
                             cpu_2050.break_in |= 8;
                     }
@@ -5081,6 +5110,10 @@ channel:
                             cpu_2050.break_in |= 8;
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            if ((cpu_2050.LS[0x0e] & 0x10000000) != 0 && (cpu_2050.IOSTAT[3] & 0x60) == 0) {
+                                 cpu_2050.IOSTAT[3] |= 0x30; /* Skip operator */
+                                 cpu_2050.BI_REG = 0;
+                            }
                         }
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
                             if ((cpu_2050.IOSTAT[3] & 0x60) == 0) { /* If input set to output */
-- 
2.43.0


From 83bf0590319add9d4e1111a4691bcf0ae92f8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 34/76] fix: 2050 multiplexor channel: store unit control word
 when device drops after first byte

---
 src/model2050/cpu2050.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index a0e130c..f54983c 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4359,11 +4359,10 @@ channel:
                         log_trace("Oper drop\n");
                         if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output */
                              cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
-                             cpu_2050.break_in |= 8;
                         } else {
-                             cpu_2050.polling[3] = 1;
-                             cpu_2050.ROUTINE[3] = 0x00;
+                             cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
                         }
+                        cpu_2050.break_in |= 8;
                     }
                 }
                 break;
-- 
2.43.0


From 66abd90a3dadf80fb7ce2efcf926d928f3a5f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 35/76] fix: 2050 multiplexor channel: ending status of a
 chained command while the interrupt buffer is full

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index f54983c..bcb788f 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5023,7 +5023,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0xa2;  /* RTD0 */
                             cpu_2050.break_in |= 8;
                     }
-                    if (cpu_2050.BRC == 5) {        /* Fetch next CCW */
+                    if (cpu_2050.BRC == 5 || cpu_2050.BRC == 7) {  /* Interrupt prep */
                             cpu_2050.ROUTINE[3] = 0x98;  /* RTA6 */
                             cpu_2050.break_in |= 8;
                     }
-- 
2.43.0


From 7710f08e0505d45608a1b43ab79f8c64b5b3a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 36/76] fix: 2050 multiplexor channel: only status-in without
 operational-in is a busy unit

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index bcb788f..8ec20c2 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4612,7 +4612,7 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     /* Unit busy */
-                    if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN|CHAN_STA_IN)) == 0) {
+                    if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN|CHAN_STA_IN)) == CHAN_STA_IN) {
                         cpu_2050.ROUTINE[3] = 0x96; /* RTC5 */
                         cpu_2050.break_in |= 8;
                     }
-- 
2.43.0


From 4926884aa70f4065edf12ea03876f80660091e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 37/76] fix: 2050 multiplexor channel: SIO must not break into
 a poll that a device has answered

---
 src/model2050/cpu2050.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8ec20c2..58b4bf3 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3997,7 +3997,12 @@ cycle_2050()
                             s_update |= BIT1|BIT2|BIT3;     /* <-- */
                     }
                 } else {
-                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0) {
+                    /* A poll that a device has answered has to complete first */
+                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0 &&
+                          (cpu_2050.TAGS_IN[0] & CHAN_ADR_IN) == 0 &&
+                          ((cpu_2050.TAGS[0] & CHAN_SEL_OUT) == 0 ||
+                           (cpu_2050.TAGS_IN[0] & CHAN_SEL_IN) != 0)) {
+                        cpu_2050.TAGS[0] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
                         cpu_2050.ROUTINE[3] = 0xa0;
                         cpu_2050.break_in |= 8;
                         cpu_2050.inst_latch = 1;
-- 
2.43.0


From aaa6e855e71adc29fcacefbe5b32e5449d521667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 38/76] fix: 2050 multiplexor channel: keep interrupt pending
 while the interrupt buffer is full

---
 src/model2050/cpu2050.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 58b4bf3..0327c56 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3549,6 +3549,7 @@ cycle_2050()
                 cpu_2050.BCHI |= BIT0;
             } else {
                 cpu_2050.IBFULL = 0;
+                cpu_2050.BCHI &= ~BIT0;
                 cpu_2050.TAGS[0] &= ~CHAN_SUP_OUT;
             }
             break;
@@ -3577,7 +3578,9 @@ cycle_2050()
                            cpu_2050.inst_latch = 0;
                            cpu_2050.s3_set = 1;
                        }
-                       cpu_2050.BCHI &= ~BIT0;
+                       if (cpu_2050.IBFULL == 0) {    /* Status still held for the program */
+                           cpu_2050.BCHI &= ~BIT0;
+                       }
                        cpu_2050.ROUTINE[cpu_2050.CH] = 0;
                    } else {
                        cpu_2050.BCHI &= ~(BIT1 >> cpu_2050.CH);
@@ -3596,7 +3599,9 @@ cycle_2050()
                        cpu_2050.s3_set = 1;
                    }
                    if (cpu_2050.CH == 0x3) {
-                       cpu_2050.BCHI &= ~BIT0;
+                       if (cpu_2050.IBFULL == 0) {
+                           cpu_2050.BCHI &= ~BIT0;
+                       }
                        s_update |= BIT3;     /* <-- */
                    } else {
                        cpu_2050.BCHI &= ~(BIT1 >> cpu_2050.CH);
-- 
2.43.0


From b114ceed70adbc49be9eac449593c652207612ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 39/76] fix: 2050 multiplexor channel: skipped input is not
 subject to storage protection

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 0327c56..9589f74 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3070,7 +3070,8 @@ cycle_2050()
     case 28:  /* M,SP gate adder to M, bits 8-11 to key */
               /* D*BI under I/O mode */
             if (cpu_2050.io_mode) {
-                if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
+                /* Nothing is stored when no byte is selected (skip) */
+                if (cpu_2050.bump_mem == 0 && cpu_2050.BI_REG != 0 && cpu_2050.IO_KEY != 0 &&
                      cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
-- 
2.43.0


From 044de17b0cf9a464dddfbec8858ad073b838d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 40/76] fix: 2030 multiplexor channel: initial selection must
 not be taken for a poll requested in the same cycle

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 3c5c733..c6a6376 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2159,6 +2159,9 @@ cycle_2030()
                         cpu_2030.MPX_TAGS |= CHAN_ADR_OUT;
                         if (sal->CK & BIT4) {
                             cpu_2030.MPX_TAGS |= (CHAN_SEL_OUT|CHAN_HLD_OUT);
+                            /* Initial selection takes the place of a poll just requested */
+                            if ((cpu_2030.MPX_TI & CHAN_OPR_IN) == 0)
+                                mpx_start_sel = 0;
                         }
                    } else {
                         cpu_2030.MPX_TAGS &= ~(CHAN_ADR_OUT);
-- 
2.43.0


From aeee7ee3cf18d9bc750379784c16592891c6ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 41/76] fix: dasd: do not format a file that is not a volume
 unless initialization was asked for

---
 src/device/dasd.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..28891eb 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1969,12 +1969,13 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     /* Attempt to open disk */
     log_info("Attach %s %s\n", file_name, disk_type[dasd->type].name);
     if ((dasd->fd = open(file_name, O_RDWR, 0660)) < 0) {
+        /* If initialize valid, try and create it */
         if (init) {
-           /* If initialize valid, try and create it */
-           if ((dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660)) < 0) {
-               log_info("No file %s\n", file_name);
-               return 0;
-           }
+           dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660);
+        }
+        if (dasd->fd < 0) {
+           log_info("No file %s\n", file_name);
+           return 0;
         }
     }
 
@@ -1986,10 +1987,10 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     if (read(dasd->fd, &hdr, sizeof(struct dasd_header)) !=
           sizeof(struct dasd_header) || strncmp(&hdr.devid[0], "CKD_P370", 8) != 0 || init) {
         /* Not there or valid magic number, try and format it if allowed */
-        if (dasd_format(dasd, init)) {
+        if (!init || dasd_format(dasd, init)) {
             log_info("Format fail %s\n", file_name);
             dasd_detach(dasd);
-            return -1;
+            return 0;
         }
         /* Read back in header after formating new drive */
         (void)lseek(dasd->fd, 0, SEEK_SET);
@@ -1998,7 +1999,7 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
                 strncmp(&hdr.devid[0], "CKD_P370", 8) != 0) {
             log_info("Format fail %s\n", file_name);
             dasd_detach(dasd);
-            return -1;
+            return 0;
         }
     }
 
-- 
2.43.0


From 3168b915ead1e43db80b653e8b6d8cca82ef075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 42/76] fix: dasd: use the geometry of the volume that is
 attached

---
 src/device/dasd.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 28891eb..652dc43 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1961,7 +1961,6 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     struct dasd_header  hdr;
     uint32_t            tsize;
     off_t               isize;
-    size_t              dsize;
     int                 r;
     uint8_t             *rec;
     int                 pos;
@@ -2010,10 +2009,8 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
              isize, sizeof(struct dasd_header));
     for (i = 0; disk_type[i].name != 0; i++) {
          tsize = (disk_type[i].bpt | 0x1ff) + 1;
-         dsize = sizeof(struct dasd_header) +
-                     (tsize * disk_type[i].heads * (disk_type[i].cyl + 1));
          if (hdr.devtype == disk_type[i].dev_type && hdr.tracksize == tsize &&
-             hdr.heads == disk_type[i].heads && dsize == isize) {
+             hdr.heads == disk_type[i].heads) {
              if (dasd->type != i) {
                   /* Ask if we should change */
                   log_warn("Wrong type %s\n", disk_type[i].name);
@@ -2024,10 +2021,10 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     }
 
     /* Check if valid name */
-    if (disk_type[dasd->type].name == 0) {
+    if (disk_type[i].name == 0) {
          log_info("Invalid name %s\n", file_name);
          dasd_detach(dasd);
-         return -1;
+         return 0;
     }
 
     /* Allocate cylinder buffer */
@@ -2035,7 +2032,7 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     dasd->tsize = hdr.tracksize;
     if (dasd->cbuf == NULL && (dasd->cbuf = (uint8_t *)calloc(tsize, sizeof(uint8_t))) == 0) {
         dasd_detach(dasd);
-        return -1;
+        return 0;
     }
     /* Read in first cylinder */
     (void)lseek(dasd->fd, sizeof(struct dasd_header), SEEK_SET);
-- 
2.43.0


From f1267605ae90cc50d8a719039883a71a3a878cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 43/76] fix: dasd: mark the cylinder as changed when it is
 written, not when it is read

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 652dc43..6d7fe71 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -831,7 +831,6 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->cpos++;
     dasd->count++;
-    dasd->dirty = 1;
 
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
@@ -1264,6 +1263,7 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->count++;
     dasd->cpos++;
+    dasd->dirty = 1;
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
          if (*data == 0) {
-- 
2.43.0


From 13ba54e27c0163173cf66044b2d8591d757b6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 44/76] fix: dasd: resynchronizing to the track position read
 data at the wrong place

---
 src/device/dasd.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 6d7fe71..3f9c235 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -635,14 +635,6 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                       log_disk("CNT1 c=%02x %02x h=%02x %02x r=%02x k=%02x d=%02x %02x %d t=%d r=%d t=%d h=%d\n",
                               rec[0], rec[1], rec[2], rec[3], rec[4], rec[5], rec[6], rec[7], count, dasd->tpos,
                               dasd->rpos, dasd->tstart, dasd->head);
-                      for (i = 0; i < dasd->dlen; i++) {
-                         if ((i % 32) == 0)
-                            log_disk_s("");
-                         log_disk_c("%02x ", da[i]);
-                         if ((i % 32) == 31)
-                            log_disk("\n");
-                      }
-
                       break;
               case 1:   /* Cyl high */
               case 2:   /* Cyl low */
@@ -683,7 +675,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_KEY:               /* In Key area */
               if (count < dasd->klen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->klen+2)) {
@@ -695,7 +687,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                       dasd->ck_sum[0] ^= disk_type[type].sync;
                   }
               }
-              log_disk("Key %d %d %02x\n", count, dasd->klen, da[count]);
+              log_disk("Key %d %d %02x\n", count, dasd->klen, *da);
               break;
 
          case DK_POS_GAP3:                /* Beginning of record */
@@ -709,7 +701,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_DATA:              /* In Data area */
               if (count < dasd->dlen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->dlen + 2)) {
@@ -1025,13 +1017,6 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
                     *data |= 0x80;
                  log_disk("CNT1x %02x r=%02x %02x %02x %02x %02x %d %d\n",
                       *data, rec[0], rec[1], rec[2], rec[3], rec[4], dasd->klen, dasd->dlen);
-                 for (i = 0; i < dasd->dlen; i++) {
-                    if ((i % 32) == 0)
-                       log_disk_s("");
-                    log_disk_c("%02x ", da[i]);
-                    if ((i % 32) == 31)
-                       log_disk("\n");
-                 }
                  dasd->ck_sum[1] ^= *data;
                  break;
          case 1:    /* Cyl high */
-- 
2.43.0


From fe13d604bbaebbd1efe862144131a20777218102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 45/76] fix: dasd: keep damaged records inside of the track

---
 src/device/dasd.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 3f9c235..b181f66 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -493,6 +493,11 @@ dasd_update(struct _dasd_t *dasd)
     count = tpos = rpos = 0;
 log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
     for (pos = 0; pos < dasd->cpos; pos ++) {
+         /* A damaged record can not reach past the track */
+         if (tpos >= dasd->tsize || (rpos + 8) > dasd->tsize) {
+             state = DK_POS_END;
+             tpos = rpos = 0;
+         }
          rec = &dasd->cbuf[rpos + dasd->tstart];
          da = &dasd->cbuf[tpos + dasd->tstart];
 //log_disk("State=%s %d t=%d r=%d\n", disk_state[state], count, tpos, rpos);
@@ -818,6 +823,12 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
         *ix = 1;
     }
 
+    /* A damaged record can not reach past the track */
+    if (dasd->tpos >= dasd->tsize || (dasd->rpos + 8) > dasd->tsize) {
+        dasd->state = DK_POS_END;
+        dasd->tpos = dasd->rpos = 0;
+    }
+
     rec = &dasd->cbuf[dasd->rpos + dasd->tstart];
     da = &dasd->cbuf[dasd->tpos + dasd->tstart];
 
@@ -1233,11 +1244,11 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 #endif
     log_disk("state %s %d\n", disk_state[dasd->state], dasd->cpos);
 
-    if (dasd->tpos >= dasd->tsize) {
+    if (dasd->tpos >= dasd->tsize || (dasd->rpos + 8) > dasd->tsize) {
         log_disk("state end %d\n", dasd->tpos);
         dasd->state = DK_POS_INDEX;
         dasd->cpos = -1;
-        dasd->tpos = -1;
+        dasd->tpos = dasd->rpos = 0;
         dasd->count = 0;
         count = 0;
         *ix = 1;
-- 
2.43.0


From d6b5b739d940644707214e487475db6f2e60cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 46/76] fix: dasd: checksum of a count field being written is
 not part of the following gap

---
 src/device/dasd.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index b181f66..ba6322f 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1479,15 +1479,26 @@ log_disk("Sync am\n");
                  dasd->ck_sum[(dasd->count - 1) & 1] ^= *data;
                  break;
          case 9:   /* Checksum 1 */
+                 break;
          case 10:   /* Checksum 2 */
                  dasd->klen = rec[5];
                  dasd->dlen = (rec[6] << 8) | rec[7];
+                 dasd->ck_sum[0] = 0xff;
+                 dasd->ck_sum[1] = 0xff;
+                 if (disk_type[type].dev_type != 0x14) {
+                     dasd->state = DK_POS_GAP2;
+                     if (rec[5] == 0)  /* Check key length */
+                         dasd->state = DK_POS_GAP3;
+                     dasd->count = 0;
+                 }
+                 break;
+         case 11:  /* 2314 Unit check */
+                 break;
+         case 12:  /* 2314 Bit count */
                  dasd->state = DK_POS_GAP2;
                  if (rec[5] == 0)  /* Check key length */
                      dasd->state = DK_POS_GAP3;
-                 dasd->count = -1;
-                 dasd->ck_sum[0] = 0xff;
-                 dasd->ck_sum[1] = 0xff;
+                 dasd->count = 0;
                  break;
          }
          break;
-- 
2.43.0


From 5f53ee8aa23b58e10ccb0508dfbdb7834401e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 47/76] fix: dasd: selecting a head which does not exist is an
 invalid head

---
 src/device/dasd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index ba6322f..dfacae2 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -393,6 +393,11 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
                dasd->dir = (fc & BIT0) != 0;
             }
         }
+        /* Check if head is valid */
+        if (dasd->head >= disk_type[dasd->type].heads) {
+            dasd->flags |= 4;
+            dasd->head = 0;
+        }
         dasd->tstart = (dasd->tsize * dasd->head);
         log_disk("set diff %d head %x\n", dasd->dir, dasd->head);
     }
-- 
2.43.0


From 233c51035a8661a1df3cce96f3923a33b554fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 48/76] fix: dasd: looking for the volume label stops at the
 end of the track

---
 src/device/dasd.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index dfacae2..4aa9475 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -2058,12 +2058,13 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     dasd->tstart = 0;
     /* Load in volume ID, from record 3 */
     pos = 5;
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 0 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 1 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 2 */
+    for (i = 0; i < 3; i++) {                      /* Skip records 0 to 2 */
+        rec = &dasd->cbuf[pos];
+        pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);
+        /* Make sure the next record could hold a label */
+        if ((pos + 8 + 4 + 80) > dasd->tsize)
+            return 1;
+    }
     rec = &dasd->cbuf[pos];                        /* Now points to record 3 */
     /* Check if correct length */
     if (rec[5] != 4 || rec[6] != 0 || rec[7] != 80)
-- 
2.43.0


From 6a9c99a009290fb3502fc30e26e90be9b011e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 49/76] fix: dasd: resynchronizing to the track position gives
 the state reading up to there would have

---
 src/device/dasd.c | 53 +++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 4aa9475..20d663b 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -475,7 +475,7 @@ dasd_update(struct _dasd_t *dasd)
     int        rpos;         /* Position of head of current record */
     int        count;        /* Position counter */
     int        type  = dasd->type;
-    int        i;
+    int        end;          /* Offset of last check byte of field */
 
 #if 0
     pos = ((dasd->tsize * disk_type[type].heads) * dasd->cyl) + sizeof(struct dasd_header);
@@ -496,6 +496,7 @@ dasd_update(struct _dasd_t *dasd)
     dasd->tstart = (dasd->tsize * dasd->head);
 #endif
     count = tpos = rpos = 0;
+    end = (disk_type[type].dev_type != 0x14) ? 1 : 3;
 log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
     for (pos = 0; pos < dasd->cpos; pos ++) {
          /* A damaged record can not reach past the track */
@@ -508,16 +509,13 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 //log_disk("State=%s %d t=%d r=%d\n", disk_state[state], count, tpos, rpos);
          switch(state) {
          case DK_POS_INDEX:             /* At Index Mark */
-              if (count > disk_type[type].g4) {
+              if (count >= disk_type[type].g4) {
                   dasd->tstart = dasd->tsize * (dasd->head);
                   tpos = rpos = 0;
                   count = -1;
                   state = DK_POS_HA;
                   dasd->ck_sum[0] = 0xff;
                   dasd->ck_sum[1] = 0xff;
-                  if (disk_type[type].dev_type == 0x14) {
-                      dasd->ck_sum[0] ^= disk_type[type].sync;
-                  }
               }
               log_disk("Index\n");
               break;
@@ -530,7 +528,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               case 2:   /* Cyl low */
               case 3:   /* Head high */
               case 4:   /* Head low */
-                    dasd->ck_sum[count & 1] ^= rec[count];
+                    dasd->ck_sum[(count + 1) & 1] ^= rec[count];
                     tpos++;
                     break;
               case 5:   /* Checksum 1 */
@@ -559,12 +557,12 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               }
               dasd->ck_sum[0] = 0xff;
               dasd->ck_sum[1] = 0xff;
-              if (disk_type[type].dev_type == 0x14) {
-                  dasd->ck_sum[0] ^= disk_type[type].sync;
-              }
               count = -1;
               rec = &dasd->cbuf[rpos + dasd->tstart];
               state = DK_POS_CNT0;
+              /* Check for end of track */
+              if ((rec[0] & rec[1] & rec[2] & rec[3]) == 0xff)
+                  state = DK_POS_END;
               log_disk("GAP1 c=%02x %02x h=%02x %02x r=%02x k=%02x d=%02x %02x %d t=%d r=%d t=%d h=%d\n",
                           rec[0], rec[1], rec[2], rec[3], rec[4], rec[5], rec[6], rec[7], count,
                           dasd->tpos, dasd->rpos, dasd->tstart, dasd->head);
@@ -574,6 +572,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
          case DK_POS_CNT0:              /* In count (c) */
               switch(count) {
               case 0:    /* Flag */
+                      dasd->rcnt = 0;
                       /* Check for end of track */
                       if ((rec[0] & rec[1] & rec[2] & rec[3]) == 0xff) {
                          state = DK_POS_END;
@@ -634,6 +633,11 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
          case DK_POS_CNT1:
               switch(count) {
               case 0:   /* Flag */
+                      dasd->rcnt++;
+                      if (rec[0] & 0x80)
+                          dasd->ck_sum[1] ^= 0x40;
+                      if (dasd->rcnt & 1)
+                          dasd->ck_sum[1] ^= 0x80;
                       /* Check for end of track */
                       if ((rec[0] & rec[1] & rec[2] & rec[3]) == 0xff) {
                          state = DK_POS_END;
@@ -647,6 +651,9 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                               dasd->rpos, dasd->tstart, dasd->head);
                       break;
               case 1:   /* Cyl high */
+                      dasd->ck_sum[0] ^= rec[0] & 0x7f;  /* Remove overflow indicator */
+                      tpos++;
+                      break;
               case 2:   /* Cyl low */
               case 3:   /* Head high */
               case 4:   /* Head low */
@@ -660,6 +667,16 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               case 9:   /* Checksum 1 */
                       break;
               case 10:   /* Checksum 2 */
+                      if (disk_type[type].dev_type != 0x14) {
+                          state = DK_POS_GAP2;
+                          if (dasd->klen == 0)
+                              state = DK_POS_GAP3;
+                          count = -1;
+                      }
+                      break;
+              case 11:  /* 2314 Unit check */
+                      break;
+              case 12:  /* 2314 Bit count */
                       state = DK_POS_GAP2;
                       if (dasd->klen == 0)
                           state = DK_POS_GAP3;
@@ -677,9 +694,6 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               state = DK_POS_KEY;
               dasd->ck_sum[0] = 0xff;
               dasd->ck_sum[1] = 0xff;
-                  if (disk_type[type].dev_type == 0x14) {
-                      dasd->ck_sum[0] ^= disk_type[type].sync;
-                  }
                   log_disk("Gap2 %d\n", count);
               break;
 
@@ -688,14 +702,11 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
-              if (count == (dasd->klen+2)) {
+              if (count == (dasd->klen + end)) {
                   state = DK_POS_GAP3;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
                   dasd->ck_sum[1] = 0xff;
-                  if (disk_type[type].dev_type == 0x14) {
-                      dasd->ck_sum[0] ^= disk_type[type].sync;
-                  }
               }
               log_disk("Key %d %d %02x\n", count, dasd->klen, *da);
               break;
@@ -706,6 +717,8 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               }
               count = -1;
               state = DK_POS_DATA;
+              dasd->ck_sum[0] = 0xff;
+              dasd->ck_sum[1] = 0xff;
               log_disk("Gap3 %d\n", count);
               break;
 
@@ -714,15 +727,13 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
-              if (count == (dasd->dlen + 2)) {
+              if (count == (dasd->dlen + 1))
                   rpos = tpos;
+              if (count == (dasd->dlen + end)) {
                   state = DK_POS_AM;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
                   dasd->ck_sum[1] = 0xff;
-                  if (disk_type[type].dev_type == 0x14) {
-                      dasd->ck_sum[0] ^= disk_type[type].sync;
-                  }
               }
               break;
 
@@ -762,6 +773,7 @@ dasd_step(struct _dasd_t *dasd, uint8_t *ix)
     if (dasd->cpos >= (disk_type[type].bpt + 1)) {
         dasd->state = DK_POS_INDEX;
         dasd->cpos = -1;
+        dasd->count = 0;
         *ix = 1;
     }
 
@@ -1200,6 +1212,7 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     }
     if (dasd->cpos >= (disk_type[type].bpt + 1)) {
         dasd->cpos = 0;
+        dasd->count = 0;
         dasd->state = DK_POS_INDEX;             /* At Index Mark */
         *ix = 1;
     }
-- 
2.43.0


From 94010d8db1c6071d2cb628a17fe841f2398a7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 50/76] fix: 1442: data to punch must not include the parity
 bit

---
 src/model1442/model1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..495826b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From 6348b26a50af9803ace71abe35ab30b3458a8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 51/76] fix: 1442: a stacked status which was accepted is no
 longer pending

---
 src/model1442/model1442.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 495826b..69e83fc 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -497,6 +497,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 log_device("1442: %03x status accepted\n",unit->addr);
 
                 ctx->status = 0;
+                unit->stacked = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
                 if (ctx->cmd_done || ctx->cmd == 0) {
@@ -598,10 +599,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
                  log_device("1442: %03x status accepted %d\n",unit->addr, unit->request);
                  ctx->status = 0;
+                 unit->stacked = 0;
                  /* If end of command, and status accepted, all done */
                  if (ctx->cmd_done) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-                     unit->stacked = 0;
                      ctx->cmd = 0;
                      ctx->cmd_done = 0;
                      ctx->busy = 0;
-- 
2.43.0


From 556c73dbbe00749a057670f62efa9cebc300a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 52/76] fix: 1443: move forms to the right line across page
 ends, do not copy overlapping memory

---
 src/model1443/model1443.c | 88 ++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 56 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..22e9d1d 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -931,7 +931,23 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
 
 /*
- * Print out a line and return number of lines being skipped
+ * Advance forms to next line.
+ */
+static void
+next_line(struct _1443_context *ctx)
+{
+    fwrite("\r\n", 1, 2, ctx->file);
+    memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+    memset(&ctx->output[14][0], 0, 120);
+    ctx->row++;
+    if (ctx->row >= ctx->lpp) {
+        fwrite("\f", 1, 1, ctx->file);
+        ctx->row = 0;
+    }
+}
+
+/*
+ * Print out a line and return amount of time it takes.
  */
 int
 print_line(struct _1443_context *ctx)
@@ -940,7 +956,6 @@ print_line(struct _1443_context *ctx)
     char                out[150];       /* Temp conversion buffer */
     int                 i;
     int                 l = (ctx->cmd >> 3) & 0x1f;
-    int                 f = 1;
     int                 r = 0;          /* Rows skipped */
     int                 time = 0;       /* Amount of time it took to print this line */
     uint16_t            mask;
@@ -977,39 +992,21 @@ print_line(struct _1443_context *ctx)
     }
     fflush(ctx->file);
 
-    f = 1;  /* Indicate we need to output a new line */
     if (l < 4) {
-        while(l != 0) {
-            fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-            memset(&ctx->output[14][0], 0, 120);
+        while(l-- > 0) {
             r++;
-            f = 0;
             log_device( " Printer fcb: %04x\n", ctx->fcb[ctx->row]);
             if ((ctx->fcb[ctx->row] & (0x1000 >> 9)) != 0)
                 ch9 = 1;
-            if ((ctx->fcb[ctx->row] & (0x1000 >> 12)) != 0) {
-        log_device( " Printer chan 12\n");
+            if ((ctx->fcb[ctx->row] & (0x1000 >> 12)) != 0)
                 ch12 = 1;
-            }
-            ctx->row++;
-            if (ctx->row > ctx->lpp)
-                break;
-            l--;
-        }
-        if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           if (f)
-               fwrite("\r\n", 1, 2, ctx->file);
-           fwrite("\f", 1, 1, ctx->file);
-           ctx->row = 0;
+            next_line(ctx);
         }
         if (ch9 && (ctx->cmd & 0x3) == 0x1) {
            ctx->sense |= SENSE_CHAN9;
         }
         if (ch12 && (ctx->cmd & 0x3) == 0x1) {
-        log_device( " Printer chan 12\n");
+           log_device( " Printer chan 12\n");
            ctx->status |= SNS_UNITEXP;
         }
         time += 20 + (5 * r);
@@ -1017,42 +1014,21 @@ print_line(struct _1443_context *ctx)
     }
 
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
-    f = 0;     /* Indicate if we started new form */
-    l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
-         l++;
-         r++;
-         if (i > ctx->lpp) {
-             log_device("printer skip2 %d > %d\n", i, ctx->lpp);
-             fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-             memset(&ctx->output[14][0], 0, 120);
-             f = 1;
-             r = 0;
-         }
-    }
 
-    /* If we passed over form, clear row */
-    if (f) {
-       ctx->row = 0;
+    /* Find how far away the next line with this channel is */
+    for (r = 1; r <= ctx->lpp; r++) {
+        if ((ctx->fcb[(ctx->row + r) % ctx->lpp] & mask) != 0)
+            break;
     }
 
-    if (ctx->fcb[i] & mask) {
-        while (r-- > 0) {
-           fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
-        }
+    /* If there is one, move forms to it */
+    if (r <= ctx->lpp) {
+        for (i = 0; i < r; i++)
+            next_line(ctx);
+        time += 5 * r;
     }
-    time += 20 + (5 * l);
-    return l;
+    time += 20;
+    return time;
 }
 
 int
-- 
2.43.0


From cbd297b2c87e54eef8e98ea6da757507b014be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 53/76] fix: print_tags: do not index past the table of state
 names

---
 src/device/device.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index c96e648..bd2adaa 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -56,8 +56,14 @@ print_tags(char *name, int state, uint16_t tags, uint16_t bus_out)
         char   buffer[1024];
         int i;
 
-        sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
-                         state_tags[state], bus_out, tags);
+        /* Not all devices use the same states, show number if no name */
+        if (state >= 0 && state < (int)(sizeof(state_tags)/sizeof(state_tags[0]))) {
+            sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
+                             state_tags[state], bus_out, tags);
+        } else {
+            sprintf(buffer, "%s state=%d Tags: bus=%03x %04x ", name,
+                             state, bus_out, tags);
+        }
         for (i = 0; i < 16; i++) {
             if (bus_tags[i] != NULL) {
               if ((tags & (0x8000 >> i)) != 0) {
-- 
2.43.0


From ec62c59739f85355d8ad71e468e26e0cb185d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 54/76] fix: 1443: clear sense once it has been read

---
 src/model1443/model1443.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 22e9d1d..2981732 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -320,9 +320,10 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                             break;
                         }
                         ctx->data = ctx->sense;
+                        ctx->sense = 0;     /* Cleared once it is sent */
                         ctx->data_rdy = 1;
                         ctx->data_end = 1;
-                        log_device("Printer sense %02x\n", ctx->sense);
+                        log_device("Printer sense %02x\n", ctx->data);
                         break;
                  default:
                         ctx->cmd = 0;
-- 
2.43.0


From 4d30328ac8242081b0e790a9ca5f409811c2afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 55/76] fix: 1443: put unit check in ending status before
 status in is raised

---
 src/model1443/model1443.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 2981732..f33c44e 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -732,8 +732,14 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
 
-             if (ctx->busy_flag) {
-                ctx->status |= SNS_CTLEND;
+             /* Put up final status, must not change once Status in is up */
+             if ((*tags & CHAN_STA_IN) == 0) {
+                 if (ctx->busy_flag) {
+                    ctx->status |= SNS_CTLEND;
+                 }
+                 if (ctx->sense != 0) {
+                    ctx->status |= SNS_UNITCHK;
+                 }
              }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
@@ -742,9 +748,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
                  log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
                  *tags |= CHAN_STA_IN;
-                 if (ctx->sense != 0) {
-                     ctx->status |= SNS_UNITCHK;
-                 }
                  ctx->cmd = 0;
                  break;
              }
-- 
2.43.0


From 2936d8ae9e47388ffeea636a68db7c1ed3eaa43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 56/76] fix: 1443: accept stacking of status at channel end,
 present stacked status of any command

---
 src/model1443/model1443.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index f33c44e..bede8a8 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -548,7 +548,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);  /* Clear select out and in */
                  ctx->selected = 1;
                  ctx->addressed = 0;
-                 if (ctx->data_end) {
+                 if (ctx->data_end || (ctx->status & SNS_DEVEND) != 0) {
                      ctx->state = (ctx->status & SNS_DEVEND) ? STATE_END : STATE_DATA_END;
                  } else {
                      ctx->state = (ctx->cmd & 1) ? STATE_DATA_I : STATE_DATA_O;
@@ -687,12 +687,12 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
              *tags |= CHAN_OPR_IN;
 
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
+             /* Wait for Service or Command out to drop */
+             if ((*tags & CHAN_STA_IN) == 0 && (*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                  break;
              }
 
-             if ((*tags & (CHAN_SRV_OUT)) == 0) {
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) == 0) {
                  *tags |= CHAN_OPR_IN|CHAN_STA_IN;
                  log_device("printer End channel status %02x %02x\n", ctx->status, ctx->cmd);
                  break;
@@ -700,9 +700,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* Service out indicates status was excepted. If Suppress out, then command chaining */
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
-                 if ((*tags & CHAN_HLD_OUT) == 0) {
-                      ctx->selected = 0;
-                 }
+                 ctx->selected = 0;
                  *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
                  /* If Command out, stack the status */
                  if ((*tags & (CHAN_CMD_OUT)) != 0) {
@@ -794,7 +792,8 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              }
 
              /* If stacked and cmd done, try to return status */
-             if (ctx->stacked && ctx->feed_done && *tags == (CHAN_OPR_OUT)) {
+             if (ctx->stacked && (ctx->feed_done || (ctx->status & SNS_DEVEND) != 0) &&
+                  *tags == (CHAN_OPR_OUT)) {
                  ctx->state = STATE_REQ;
              }
              break;
-- 
2.43.0


From 74efd95c7b4c66ef06925520f60c9762df6714b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 57/76] fix: 1443: answer selection while status is pending

---
 src/model1443/model1443.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index bede8a8..b8566de 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -533,6 +533,36 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
 
+             /* Check if we are being selected with status pending, give it now */
+             if (ctx->addressed == 0 && ctx->selected == 0 &&
+                  (ctx->data_end || (ctx->status & SNS_DEVEND) != 0) &&
+                  (*tags & ~(CHAN_SUP_OUT|CHAN_REQ_IN)) ==
+                         (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) &&
+                  (bus_out & 0xff) == ctx->addr) {
+                 if (ctx->request) {
+                    *tags &= ~CHAN_REQ_IN;
+                    ctx->request = 0;
+                 }
+                 if ((ctx->status & SNS_DEVEND) != 0) {
+                    if (ctx->busy_flag) {
+                       ctx->status |= SNS_CTLEND;
+                       ctx->busy_flag = 0;
+                    }
+                    if (ctx->sense != 0) {
+                       ctx->status |= SNS_UNITCHK;
+                    }
+                 }
+                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0)
+                     ctx->sense |= SENSE_BUSCHK;
+                 *tags &= ~(CHAN_SEL_OUT);              /* Clear select out and in */
+                 *tags |= CHAN_OPR_IN;
+                 ctx->state = STATE_STACK_SEL;
+                 ctx->stacked = 1;
+                 ctx->addressed = 1;
+                 log_device("printer pending selected\n");
+                 break;
+             }
+
              /* Check if another device is being selected */
              if (ctx->request && (
                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
@@ -880,6 +910,8 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      } else {
                         ctx->state = STATE_WAIT;
                      }
+                 } else if (ctx->data_end && (ctx->status & SNS_DEVEND) == 0) {
+                     ctx->state = STATE_WAIT;   /* Only channel end taken */
                  } else {
                      ctx->state = STATE_IDLE;
                  }
-- 
2.43.0


From a3076a62aa302804bcb8a2106d4cf35471db2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 58/76] fix: 2415: present address of the unit selected, not
 that of the control unit

---
 src/model2415/model2415.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..7ad54e9 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1014,7 +1014,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
+            *bus_in |= odd_parity[*bus_in];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
-- 
2.43.0


From 493a5e1f10d4a4394215c638e27688e99bd2a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 59/76] fix: 2415: a stacked status which was accepted is no
 longer pending

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 7ad54e9..9c1a4d8 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1095,11 +1095,11 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  }
 
                 ctx->status = 0;
+                unit->stacked = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
                 if (ctx->cmd_done || ctx->cmd == 0) {
                     *tags &= ~(CHAN_OPR_IN);
-                    unit->stacked = 0;
                     ctx->data_end = 0;
                     ctx->data_end_post = 0;
                     ctx->cmd_done = 0;
@@ -1195,10 +1195,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
                  log_device("2415: %03x status accepted %d %02x\n",unit->addr, unit->request, ctx->status);
                  ctx->status = 0;
+                 unit->stacked = 0;
                  /* If end of command, and status accepted, all done */
                  if (ctx->cmd_done) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-                     unit->stacked = 0;
                      ctx->cmd = 0;
                      ctx->cmd_done = 0;
                      ctx->busy = 0;
-- 
2.43.0


From cacb7226474f488a305ffb3cf368699c6160bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 60/76] fix: 2415: intervention required for units which are
 not there or not ready, busy only while rewinding

---
 src/model2415/model2415.c | 111 ++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 58 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 9c1a4d8..97240c6 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -557,11 +557,21 @@ tape_callback(struct _device *unit, void *arg, int u)
     }
 }
 
+/* Tape on current unit, NULL if there is no such unit */
+static struct _tape_buffer *
+current_tape(struct _2415_context *ctx)
+{
+    if (ctx->cur_unit < 0 || ctx->cur_unit >= (int)(sizeof(ctx->tape)/sizeof(ctx->tape[0])))
+        return NULL;
+    return ctx->tape[ctx->cur_unit];
+}
+
 /* Decode command to device */
 static void
 device_cmd(struct _device *unit, uint8_t bus_out)
 {
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+    struct _tape_buffer  *tape = current_tape(ctx);
     int      r;
 
     /* If current unit has pending status and not sense, return busy */
@@ -582,21 +592,19 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     /* Set up sense byte 1 */
     ctx->sense[1] = 0;
-    if (ctx->tape[ctx->cur_unit] != NULL) {
-        if (tape_ready(ctx->tape[ctx->cur_unit])) {
-            ctx->sense[1] |= SENSE_TUA;
-            if (((ctx->rew_flags | ctx->run_flags) & (1<<ctx->cur_unit)) != 0)
-                ctx->sense[1] |= SENSE_TUB;
-            if (!tape_ring(ctx->tape[ctx->cur_unit]))
-                ctx->sense[1] |= SENSE_NORING;
-            if (tape_at_loadpt(ctx->tape[ctx->cur_unit]))
-                ctx->sense[1] |= SENSE_LOAD;
-            if (!tape_9_track(ctx->tape[ctx->cur_unit]))
-                ctx->sense[1] |= SENSE_7TRACK;
-            tape_select(ctx->tape[ctx->cur_unit]);
-        } else {
+    if (tape != NULL && tape_ready(tape)) {
+        ctx->sense[1] |= SENSE_TUA;
+        if (((ctx->rew_flags | ctx->run_flags) & (1<<ctx->cur_unit)) != 0)
             ctx->sense[1] |= SENSE_TUB;
-        }
+        if (!tape_ring(tape))
+            ctx->sense[1] |= SENSE_NORING;
+        if (tape_at_loadpt(tape))
+            ctx->sense[1] |= SENSE_LOAD;
+        if (!tape_9_track(tape))
+            ctx->sense[1] |= SENSE_7TRACK;
+        tape_select(tape);
+    } else if (tape != NULL) {
+        ctx->sense[1] |= SENSE_TUB;
     }
     ctx->sense[2] = SENSE_2;
     ctx->sense[4] = 0;
@@ -612,6 +620,16 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     ctx->mrk_flags &= ~(1 << ctx->cur_unit);
     ctx->stat_unit = -1;
     ctx->status = 0;
+
+    if ((ctx->cmd & 0xf) != 0 && (ctx->cmd & 0xf) != 4) {
+        /* If unit is rewinding, it is busy */
+        if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
+            ctx->status = SNS_BSY;
+            ctx->cmd = 0;
+            return;
+        }
+    }
+
     switch (ctx->cmd & 0xF) {
     case 0x0: /* Test I/O */
            return;
@@ -620,32 +638,28 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x5: /* Write */
     case 0x9: /* Write */
     case 0xD: /* Write */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (tape == NULL || !tape_ready(tape)) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
 
            /* Check if no write ring */
-           if (tape_ring(ctx->tape[ctx->cur_unit]) == 0) {
+           if (tape_ring(tape) == 0) {
                ctx->sense[0] = SENSE_CMDREJ;
                break;
            }
            /* Do a write start */
-           r = tape_write_start(ctx->tape[ctx->cur_unit]);
+           r = tape_write_start(tape);
            if (r == 1) {
               ctx->sense[0] = SENSE_WCZERO;
               ctx->sense[1] |= SENSE_WRITE;
               add_event(unit, &tape_callback, START_DELAY,
-                       (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                       (void *)tape, ctx->cur_unit);
               ctx->cmd_done = 0;
               ctx->data_rdy = 1;
            } else if (r == 2) {
@@ -659,44 +673,36 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x6: /* Read */
     case 0xa: /* Read */
     case 0xe: /* Read */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[2] = SENSE_2;
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (tape == NULL || !tape_ready(tape)) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
            /* Do a read start */
-           r = tape_read_forw(ctx->tape[ctx->cur_unit]);
+           r = tape_read_forw(tape);
            if (r < 0) {
                ctx->sense[0] = SENSE_INTERV;
            } else {
-               log_trace("Buffer = %x\n", (void *)&ctx->tape[ctx->cur_unit]);
+               log_trace("Buffer = %x\n", (void *)tape);
                add_event(unit, &tape_callback, START_DELAY,
-                     (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                     (void *)tape, ctx->cur_unit);
                ctx->cmd_done = 0;
            }
            break;
 
       case 0xc:  /* Read backwords. */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
 
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (tape == NULL || !tape_ready(tape)) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -709,13 +715,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                break;
            }
            /* Do a read start */
-           r = tape_read_back(ctx->tape[ctx->cur_unit]);
+           r = tape_read_back(tape);
            log_device("Tape read back %d : %d\n", ctx->cur_unit, r);
            if (r < 0) {
                ctx->sense[0] = SENSE_INTERV;
            } else {
                add_event(unit, &tape_callback, START_DELAY,
-                     (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                     (void *)tape, ctx->cur_unit);
                ctx->cmd_done = 0;
            }
            break;
@@ -729,13 +735,6 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x3: /* Mode command */
     case 0xb: /* Mode command */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               ctx->cmd = 0;
-               ctx->cmd_done = 1;
-               ctx->data_end = 1;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[3] = 0;
            if ((ctx->sense[1] & SENSE_7TRACK) != 0) {
@@ -774,16 +773,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x7:  /* Tape motion control */
     case 0xf:  /* Tape motion control */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (tape == NULL || !tape_ready(tape)) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -791,13 +786,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            case 0x17:    /* Erase gap */
            case 0x1f:    /* Write tape mark */
                  /* Check if no write ring */
-                 if (tape_ring(ctx->tape[ctx->cur_unit]) == 0) {
+                 if (tape_ring(tape) == 0) {
                      ctx->sense[0] = SENSE_CMDREJ;
                      break;
                  }
                  ctx->data_end = 1;
                  add_event(unit, &tape_callback, START_DELAY,
-                         (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                         (void *)tape, ctx->cur_unit);
                  ctx->cmd_done = 0;
                  break;
 
@@ -805,17 +800,17 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            case 0x0f:    /* Rewind and unload */
                  ctx->data_end = 1;
                  add_event(unit, &tape_callback, START_DELAY,
-                         (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                         (void *)tape, ctx->cur_unit);
                  ctx->cmd_done = 0;
                  break;
            case 0x37:    /* Forward space block */
            case 0x3f:    /* Forward space file */
                 ctx->data_end = 1;
                 /* Do a read start */
-                r = tape_read_forw(ctx->tape[ctx->cur_unit]);
+                r = tape_read_forw(tape);
                 if (r >= 0) {
                     add_event(unit, &tape_callback, START_DELAY,
-                            (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                            (void *)tape, ctx->cur_unit);
                  ctx->cmd_done = 0;
                 } else {
                     ctx->sense[0] = SENSE_INTERV;
@@ -833,10 +828,10 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                     break;
                 }
                 /* Do a read start */
-                r = tape_read_back(ctx->tape[ctx->cur_unit]);
+                r = tape_read_back(tape);
                 if (r >= 0) {
                     add_event(unit, &tape_callback, START_DELAY,
-                             (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+                             (void *)tape, ctx->cur_unit);
                  ctx->cmd_done = 0;
                 } else {
                     ctx->sense[0] = SENSE_INTERV;
@@ -859,8 +854,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     if (ctx->cmd != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
                             (ctx->sense[1] & BIT7) != 0)) {
         ctx->status |= SNS_UNITCHK;
-        if (ctx->tape[ctx->cur_unit] != NULL) {
-            tape_unselect(ctx->tape[ctx->cur_unit]);
+        if (tape != NULL) {
+            tape_unselect(tape);
         }
         ctx->cmd = 0;
         ctx->data_end = 1;
-- 
2.43.0


From a468263e27a98265ff0b0ae568e78681dd8bd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 61/76] fix: 2415: keep control unit busy while it works, give
 device end once, at the end of a rewind and for the right unit

---
 src/model2415/model2415.c | 160 +++++++++++++++++++++-----------------
 src/model2415/model2415.h |   1 +
 2 files changed, 91 insertions(+), 70 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 97240c6..a8656b1 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -134,6 +134,24 @@ DEV_LIST_STRUCT(2415, CTRL_TYPE, CHAR_OPT|NUM_MOD);
 #define MT_TRANS        0x02  /* Translation turned on ignored 9 track  */
 #define MT_CONV         0x04  /* Data converter on ignored 9 track  */
 
+/* Tape is back at load point */
+static void
+rewind_done(struct _device *unit, struct _tape_buffer *tape, int u)
+{
+    struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+
+    log_device("Rewind done %d\n", u);
+    ctx->rew_flags &= ~(1 << u);
+    if (ctx->run_flags & (1 << u)) {
+        log_device("Detach device %d\n", u);
+        tape_detach(tape);
+        ctx->run_flags &= ~(1 << u);
+    } else {
+        ctx->rdy_flags |= 1 << u;    /* Have device end to give for unit */
+        log_device("Rewind ready device %d\n", u);
+    }
+}
+
 void
 model2415_rewind_callback(struct _device *unit, void *arg, int u)
 {
@@ -145,25 +163,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
        log_device("Rewind Low speed %02x %02x\n", ctx->rew_flags, ctx->rdy_flags);
        r = tape_rewind_frames(tape, 1);
        if (r == TAPE_STATUS_BOT) {
-           log_device("Rewind done %d\n", u);
-           ctx->rew_flags &= ~(1 << u);
-           if (ctx->run_flags & (1 << u)) {
-               log_device("Detach device %d\n", u);
-               tape_detach(tape);
-               ctx->run_flags &= ~(1 << u);
-           } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
-               if (ctx->chaining) {
-                   log_device("Chain done device %d\n", u);
-               }
-               ctx->status |= SNS_DEVEND;
-               ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
-               ctx->cmd = 0;
-               ctx->cmd_done = 1;
-               log_device("Rewind finished %d\n", u);
-           } else {
-               ctx->rdy_flags |= 1 << u;
-               log_device("Rewind ready device %d\n", u);
-           }
+           rewind_done(unit, tape, u);
        } else {
            add_event(unit, &model2415_rewind_callback, FRAME_DELAY, arg, u);
        }
@@ -173,22 +173,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
     log_device("Rewind high speed  %02x %02x\n", ctx->rew_flags, ctx->rdy_flags);
     r = tape_rewind_frames(tape, REW_FRAME);
     if (r == TAPE_STATUS_BOT) {
-        log_device("Rewind done %d\n", u);
-        ctx->rew_flags &= ~(1 << u);
-        if (ctx->run_flags & (1 << u)) {
-            tape_detach(tape);
-            ctx->run_flags &= ~(1 << u);
-        } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
-            if (ctx->chaining) {
-                log_device("Chain done device %d\n", u);
-            }
-            ctx->status |= SNS_DEVEND;
-            ctx->cmd = 0;
-            ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
-            ctx->cmd_done = 1;
-        } else {
-            ctx->rdy_flags |= 1 << u;
-        }
+        rewind_done(unit, tape, u);
     } else {
         add_event(unit, &model2415_rewind_callback, REWIND_DELAY, arg, u);
     }
@@ -200,9 +185,6 @@ done_callback(struct _device *unit, void *arg, int u)
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
 
     ctx->cmd_done = 1;
-    if ((ctx->cmd & 0x3) == 0x3) {
-        ctx->rdy_flags |= 1 << u;  /* Set ready flag for device */
-    }
     ctx->status |= SNS_DEVEND;
     log_device("Do done command %d %d %02x\n", ctx->data_end, ctx->data_rdy, ctx->status);
 }
@@ -467,16 +449,13 @@ tape_callback(struct _device *unit, void *arg, int u)
                 ctx->cmd = 0;
                 break;
            case 0x07:    /* Rewind */
-                log_device("start rewind %d\n", ctx->chaining);
+                log_device("start rewind\n");
                 tape_start_rewind(tape);
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
-                ctx->data_end = 1;
-                if (ctx->chaining == 0) {
-                    ctx->cmd_done = 1;
-                    ctx->status |= SNS_DEVEND;
-                    ctx->cmd = 0;
-                }
+                /* Control unit is free, device end comes when unit is rewound */
+                ctx->cmd = 0;
+                ctx->busy = 0;
                 break;
            case 0x17:    /* Erase gap */
                 add_event(unit, done_callback, 20*FRAME_DELAY, (void *)tape, u);
@@ -535,6 +514,16 @@ tape_callback(struct _device *unit, void *arg, int u)
                       }
                       break;
 
+                  case TAPE_STATUS_BOT:
+                  case TAPE_STATUS_EOT:
+                     /* Ran off end of tape */
+                     if (r == TAPE_STATUS_BOT) {
+                         ctx->status |= SNS_UNITCHK;
+                     }
+                     (void)tape_finish_rec(tape);
+                     add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                     break;
+
                   case TAPE_STATUS_MARK:
                      /* Terminate on tape mark */
                      r = tape_finish_rec(tape);
@@ -866,6 +855,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     }
     if (ctx->cmd_done != 0) {
         ctx->status |= SNS_DEVEND;
+    } else {
+        ctx->busy = 1;
     }
 }
 
@@ -875,6 +866,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 {
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
     static   uint16_t  last_tags = 0;
+    int      pending;
 
     if (last_tags != *tags || unit->selected) {
         print_tags("2415", ctx->state, *tags, bus_out);
@@ -911,14 +903,20 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 break;
             }
 
-            /* Scan if device is ready */
-            if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
-               ctx->t_scan++;
-               if (ctx->t_scan >= 6) {
-                   ctx->t_scan = 0;
+            /* Check if there is status to give for current unit */
+            pending = unit->stacked || (ctx->busy && ctx->cmd_done);
+            unit->request = pending;
+
+            /* If not, scan if other device is ready */
+            if (!pending && !ctx->busy) {
+               if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+                  ctx->t_scan++;
+                  if (ctx->t_scan >= 6) {
+                      ctx->t_scan = 0;
+                  }
+               } else {
+                  unit->request = 1;
                }
-            } else {
-               unit->request = 1;
             }
 
             /* If operation in, another device has channel */
@@ -951,7 +949,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         }
                         /* If device in operation, respond with busy status */
                         /* If another unit has pending status. */
-                        if (ctx->busy || (ctx->rdy_flags != 0 && (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0)) {
+                        if ((pending) ? (bus_out & 0x7) != ctx->cur_unit :
+                              (ctx->busy || (ctx->rdy_flags != 0 &&
+                                 (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0))) {
                             *bus_in = SNS_BSY|SNS_SMS | odd_parity[SNS_BSY|SNS_SMS];
                             *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
                             ctx->state = STATE_BUSY;
@@ -960,6 +960,12 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                             break;
                         }
                         ctx->cur_unit = bus_out & 0x7;
+                        /* If not status of last command, see if unit became ready */
+                        if (!pending) {
+                            ctx->status = 0;
+                            if ((ctx->rdy_flags & (1 << ctx->cur_unit)) != 0)
+                                ctx->status = SNS_DEVEND;
+                        }
 
                         /* Clear select in, and raise operation in */
                         *tags |= CHAN_OPR_IN;             /* Put our address on bus */
@@ -976,12 +982,12 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
-                         *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
-                         *bus_in |= odd_parity[*bus_in];
+                     if (!pending) {
                          ctx->cur_unit = ctx->t_scan;
-                         ctx->status |= SNS_DEVEND;
+                         ctx->status = SNS_DEVEND;
                      }
+                     *bus_in = (unit->addr & 0xf8) | ctx->cur_unit;
+                     *bus_in |= odd_parity[*bus_in];
                      unit->selected = 1;
                      ctx->state = STATE_INIT_SEL;
                      log_device("2415: %03x polling\n",unit->addr);
@@ -1027,12 +1033,12 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
                 if (ctx->busy) {
-                    if (ctx->data_end == 0) {
+                    if (ctx->data_end == 0 && ctx->cmd_done == 0) {
                         ctx->state = STATE_DATA_1;
                         break;
                     }
-                    if (ctx->status == 0) {
-                        ctx->status = SNS_BSY;
+                    if (ctx->status == 0 || (bus_out & 0xff) != 0) {
+                        ctx->status |= SNS_BSY;
                     }
                     ctx->state = STATE_STATUS; /* Present status out */
                     break;
@@ -1040,6 +1046,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->state = STATE_STATUS; /* Present status out */
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
+                } else if ((bus_out & 0xff) != 0) {
+                    ctx->status |= SNS_BSY;             /* Command is not done */
                 }
                 break;
             }
@@ -1062,7 +1070,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             ctx->post_status = ctx->status;
+             *bus_in = ctx->post_status | odd_parity[ctx->post_status];
              log_device("2415: %03x initial status %02x\n",unit->addr, ctx->status);
              *tags |= (CHAN_STA_IN);
              ctx->state = STATE_STATUS_ACCEPT;    /* Wait for device to accept out status */
@@ -1072,10 +1081,11 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS_ACCEPT:
              /* CPU will respond in a couple ways. */
              *tags &= ~(CHAN_SEL_OUT);
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             *bus_in = ctx->post_status | odd_parity[ctx->post_status];
              if ((*tags & CHAN_CMD_OUT) != 0) {      /* CPU does not want status, stack it */
                  log_device("2415: %03x status stacked\n",unit->addr);
                  unit->stacked = 1;
+                 ctx->status &= ~SNS_BSY;
                  ctx->state = STATE_STATUS_WAIT;
                  *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);
                  break;
@@ -1089,11 +1099,14 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     ctx->chaining = 0;
                  }
 
-                ctx->status = 0;
+                ctx->status &= ~(ctx->post_status | SNS_BSY);
                 unit->stacked = 0;
                 *tags &= ~(CHAN_STA_IN);
+                if ((ctx->post_status & SNS_DEVEND) != 0) {
+                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
+                }
                 /* If end of command, and status accepted, all done */
-                if (ctx->cmd_done || ctx->cmd == 0) {
+                if (ctx->busy == 0 || (ctx->post_status & SNS_DEVEND) != 0) {
                     *tags &= ~(CHAN_OPR_IN);
                     ctx->data_end = 0;
                     ctx->data_end_post = 0;
@@ -1101,7 +1114,6 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     ctx->cmd = 0;
                     ctx->busy = 0;
                     ctx->state = STATE_STATUS_WAIT;
-                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
                     break;
                 }
 
@@ -1125,7 +1137,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS_WAIT:
              *tags &= ~(CHAN_SEL_OUT);
              if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT|CHAN_ADR_OUT)) == 0) {
-                 if ((*tags & CHAN_HLD_OUT) == 0 || ctx->busy == 0) {
+                 if ((*tags & CHAN_HLD_OUT) == 0 || (*tags & CHAN_OPR_IN) == 0 || ctx->busy == 0) {
                      unit->selected = 0;
                      *tags &= ~(CHAN_OPR_IN);
                      ctx->state = STATE_IDLE;
@@ -1164,7 +1176,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) != 0) {
                   break;
              }
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             ctx->post_status = ctx->status;
+             *bus_in = ctx->post_status | odd_parity[ctx->post_status];
              *tags |= (CHAN_STA_IN);
 
              log_device("2415: %03x %02x end status %d\n",unit->addr, ctx->status, unit->request);
@@ -1175,7 +1188,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
      case STATE_END_ACCEPT:
              *tags &= ~(CHAN_SEL_OUT);
 
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             *bus_in = ctx->post_status | odd_parity[ctx->post_status];
              /* CPU does not want status right now. stack it */
              if ((*tags & CHAN_CMD_OUT) != 0) {
                  log_device("2415: %03x status stacked %d\n",unit->addr, unit->request);
@@ -1189,10 +1202,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & CHAN_SRV_OUT) != 0) {
 
                  log_device("2415: %03x status accepted %d %02x\n",unit->addr, unit->request, ctx->status);
-                 ctx->status = 0;
+                 ctx->status &= ~(ctx->post_status);
                  unit->stacked = 0;
                  /* If end of command, and status accepted, all done */
-                 if (ctx->cmd_done) {
+                 if (ctx->cmd_done && (ctx->post_status & SNS_DEVEND) != 0) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
                      ctx->cmd = 0;
                      ctx->cmd_done = 0;
@@ -1223,6 +1236,13 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             log_device("2415: %03x wait end b=%d cd=%d dly=%d %02x %02x\n",unit->addr,
                 ctx->busy, ctx->cmd_done, ctx->delay, ctx->cmd, ctx->status);
              *tags &= ~(CHAN_SEL_OUT);
+             /* If channel let go, or only unit still working, disconnect */
+             if ((*tags & CHAN_HLD_OUT) == 0 || ctx->busy == 0) {
+                 *tags &= ~(CHAN_OPR_IN);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if (ctx->cmd_done) {
                  unit->request = 0;
                  ctx->state = STATE_STATUS;
diff --git a/src/model2415/model2415.h b/src/model2415/model2415.h
index 9d9b059..8b21559 100644
--- a/src/model2415/model2415.h
+++ b/src/model2415/model2415.h
@@ -93,6 +93,7 @@ struct _2415_context {
     int                    cmd;          /* Current command */
     int                    cmd_done;     /* Current read/write finished */
     int                    status;       /* Current bus status */
+    int                    post_status;  /* Status shown to channel */
     uint8_t                data;         /* Current byte to send/recieve */
     uint16_t               cbuffer;      /* Conversion buffer */
     int                    data_rdy;     /* Data is valid */
-- 
2.43.0


From cbf6298a076d2f97600824576c81fafc1f11b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 62/76] fix: 2415: start writing, result of tape_write_start
 was taken for an error

---
 src/model2415/model2415.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index a8656b1..425a846 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -333,6 +333,10 @@ tape_callback(struct _device *unit, void *arg, int u)
                switch(r) {
                case TAPE_STATUS_FILE_ERROR:
                    /* Set up read error */
+                    ctx->data_end = 1;
+                    ctx->sense[0] |= SENSE_EQUCHK;
+                    ctx->status |= SNS_CHNEND|SNS_UNITCHK;
+                    add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                     break;
 
                case TAPE_STATUS_EOT:
@@ -644,14 +648,14 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            /* Do a write start */
            r = tape_write_start(tape);
-           if (r == 1) {
+           if (r == TAPE_STATUS_OK) {
               ctx->sense[0] = SENSE_WCZERO;
               ctx->sense[1] |= SENSE_WRITE;
               add_event(unit, &tape_callback, START_DELAY,
                        (void *)tape, ctx->cur_unit);
               ctx->cmd_done = 0;
               ctx->data_rdy = 1;
-           } else if (r == 2) {
+           } else if (r == TAPE_STATUS_WRP) {
                ctx->sense[0] = SENSE_CMDREJ;
            } else {
                ctx->sense[0] = SENSE_INTERV;
-- 
2.43.0


From 7ec0113826357e537259f61b715d96e8f091684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 63/76] fix: 2415: transfer no data when there is no more tape
 to read

---
 src/model2415/model2415.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 425a846..62e8955 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -328,7 +328,13 @@ tape_callback(struct _device *unit, void *arg, int u)
                ctx->status |= SNS_CHNEND|SNS_UNITCHK;
                add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
            } else {
-               r = tape_read_frame(tape, &ctx->data);
+               /* No data if there is no more tape to read */
+               if ((ctx->cmd & 0xf) == 0xc && tape_at_loadpt(tape))
+                   r = TAPE_STATUS_BOT;
+               else if ((ctx->cmd & 0xf) != 0xc && (tape->format & TAPE_EOT) != 0)
+                   r = TAPE_STATUS_EOT;
+               else
+                   r = tape_read_frame(tape, &ctx->data);
                log_device("Tape read frame %d\n", r);
                switch(r) {
                case TAPE_STATUS_FILE_ERROR:
-- 
2.43.0


From 1d65034deaa5d4fff6216fdbb54c2737927a6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 64/76] fix: 2415: reject invalid configurations

---
 src/model2415/model2415.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 62e8955..72dd370 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1380,6 +1380,10 @@ model2415_create(struct _option *opt)
          }
          i = opt->addr & 0x7;
          tape = (struct _2415_context *)dev2415->dev;
+         if (i >= tape->nunits) {
+             fprintf(stderr, "Device not found %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
          tape->tape[i] = (struct _tape_buffer *)calloc(1, sizeof(struct _tape_buffer));
          tape->tape[i]->format = TRACK9;
          tape->supply_color[i] = 2;
@@ -1403,6 +1407,12 @@ model2415_create(struct _option *opt)
                    ring = 1;
                } else if (strcmp(opts.opt, "FORMAT") == 0) {
                    fmt = get_index(&opts, tape_format_type);
+                   if (fmt < 0) {
+                       free(tape->tape[i]);
+                       tape->tape[i] = NULL;
+                       free(file);
+                       return 0;
+                   }
                } else if (strcmp(opts.opt, "800") == 0) {
                    den = 0;
                } else if (strcmp(opts.opt, "1600") == 0) {
@@ -1411,6 +1421,7 @@ model2415_create(struct _option *opt)
                    fprintf(stderr, "Invalid option %s to 2415 Unit\n", opts.opt);
                    free(tape->tape[i]);
                    tape->tape[i] = NULL;
+                   free(file);
                    return 0;
                }
          }
@@ -1441,6 +1452,12 @@ model2415_create(struct _option *opt)
          dev2415->type_name = "2415";
          dev2415->n_units = 6;
          if (opt->flags & 1) {
+             if (opt->dash_num < 1 || opt->dash_num > 6) {
+                 fprintf(stderr, "Invalid model %s-%d\n", opt->opt, opt->dash_num);
+                 free(tape);
+                 free(dev2415);
+                 return 0;
+             }
              if (opt->dash_num >= 4)
                  dev2415->n_units = (opt->dash_num - 3) * 2;
              else
-- 
2.43.0


From 082a752a113293dc95d8194519e2de8bb1a06c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 65/76] fix: 2415: accept chained command while other unit has
 device end to give, do not lose device end of a rewind

---
 src/model2415/model2415.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 72dd370..3b343a6 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -961,7 +961,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         /* If another unit has pending status. */
                         if ((pending) ? (bus_out & 0x7) != ctx->cur_unit :
                               (ctx->busy || (ctx->rdy_flags != 0 &&
-                                 (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0))) {
+                                 (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0 &&
+                                 (!ctx->chaining || (*tags & CHAN_SUP_OUT) == 0 ||
+                                   (bus_out & 0x7) != ctx->cur_unit)))) {
                             *bus_in = SNS_BSY|SNS_SMS | odd_parity[SNS_BSY|SNS_SMS];
                             *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
                             ctx->state = STATE_BUSY;
@@ -1054,6 +1056,11 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
                 ctx->state = STATE_STATUS; /* Present status out */
+                /* See if unit became ready since it was selected */
+                if (!unit->stacked && ctx->status == 0 &&
+                     (ctx->rdy_flags & (1 << ctx->cur_unit)) != 0) {
+                    ctx->status = SNS_DEVEND;
+                }
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
                 } else if ((bus_out & 0xff) != 0) {
@@ -1112,7 +1119,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->status &= ~(ctx->post_status | SNS_BSY);
                 unit->stacked = 0;
                 *tags &= ~(CHAN_STA_IN);
-                if ((ctx->post_status & SNS_DEVEND) != 0) {
+                /* Device end of unit which became ready, not of a command */
+                if ((ctx->post_status & (SNS_DEVEND|SNS_CHNEND)) == SNS_DEVEND && ctx->busy == 0) {
                     ctx->rdy_flags &= ~(1 << ctx->cur_unit);
                 }
                 /* If end of command, and status accepted, all done */
@@ -1212,6 +1220,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & CHAN_SRV_OUT) != 0) {
 
                  log_device("2415: %03x status accepted %d %02x\n",unit->addr, unit->request, ctx->status);
+                 ctx->chaining = (*tags & CHAN_SUP_OUT) != 0;
                  ctx->status &= ~(ctx->post_status);
                  unit->stacked = 0;
                  /* If end of command, and status accepted, all done */
-- 
2.43.0


From 5b47a59a847eabde9f44cb5ff24cbb54ac9db685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 66/76] fix: dasd: check bytes of key and data fields of odd
 length were swapped, so every read of such a record through the 2844 gave
 data check

---
 src/device/dasd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 20d663b..f25446e 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -699,7 +699,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_KEY:               /* In Key area */
               if (count < dasd->klen) {
-                  dasd->ck_sum[count & 1] ^= *da;
+                  dasd->ck_sum[(count + dasd->klen) & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->klen + end)) {
@@ -724,7 +724,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_DATA:              /* In Data area */
               if (count < dasd->dlen) {
-                  dasd->ck_sum[count & 1] ^= *da;
+                  dasd->ck_sum[(count + dasd->dlen) & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->dlen + 1))
@@ -1115,7 +1115,7 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     case DK_POS_KEY:               /* In Key area */
          if (count < dasd->klen) {
              *data = *da;
-             dasd->ck_sum[count & 1] ^= *da;
+             dasd->ck_sum[(count + dasd->klen) & 1] ^= *da;
              dasd->tpos++;
          } else {
            switch (count - dasd->klen) {
@@ -1168,7 +1168,7 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     case DK_POS_DATA:              /* In Data area */
          if (count < dasd->dlen) {
              *data = *da;
-             dasd->ck_sum[count & 1] ^= *da;
+             dasd->ck_sum[(count + dasd->dlen) & 1] ^= *da;
              dasd->tpos++;
          } else {
            switch (count - dasd->dlen) {
-- 
2.43.0


From 2eba0cd98cb21ec54f01c2fb3f16120e8d5be353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 67/76] fix: 2844: drop service in when the channel stops a
 transfer at the last byte of a field

---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..4b1c0e6 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -1013,7 +1013,7 @@ model2844_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
          /* Clear service in when data taken */
          if ((ctx->tr_1 && (ctx->IG_REG & BIT2) == 0) ||
              ((ctx->IG_REG & BIT2) != 0 && (*tags & CHAN_SRV_OUT) != 0 && ctx->tr_2 == 0) ||
-             ((ctx->IG_REG & BIT2) == 0 && (*tags & CHAN_CMD_OUT) != 0 && ctx->srv_in)) {
+             ((ctx->IG_REG & BIT2) == 0 && (*tags & CHAN_CMD_OUT) != 0)) {
              ctx->srv_in = 0;
              *tags &= ~CHAN_SRV_IN;
              log_trace("Clear Service in\n");
-- 
2.43.0


From acc018a7ae447b8d53d38d585eaca775033803e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 68/76] fix: dasd: heads 16 to 19 of a 2314 could not be
 selected

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index f25446e..6d30626 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -384,7 +384,7 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
     if (ft & BIT2) {    /* Set Head and sign */
         if (dasd->type == 3) {    /* 2314 */
             dasd->dir = (fc & BIT0) != 0;
-            dasd->head = (fc & 0xf);
+            dasd->head = (fc & 0x1f);
         } else {                  /* 2311 */
             if ((dasd->flags & 2) == 0) {
                dasd->head = (fc & 0xf);
-- 
2.43.0


From 501e29615a15721abc78125ebd289ca3e19894a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 69/76] fix: 2844: address mark flag given to a drive on
 writing was never set, a write could destroy the record after it

---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 4b1c0e6..5987895 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -130,7 +130,7 @@ step_2844(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & 0xf) == i && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data = 0, am = 0;
             ix = 0;
             if ((ctx->FC & 0x40) != 0) {
                 if (dasd_read_byte(ctx->disk[i], &data, &am, &ix)) {
-- 
2.43.0


From bd14be6b24f8f3b035e9786bf8dec91726cf61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 70/76] fix: 2844: control unit answered any address with good
 parity

---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 5987895..65d2418 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -834,7 +834,7 @@ model2844_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
     /* If address out, see if we are target */
     if ((*tags & CHAN_ADR_OUT) != 0) {
-        if ((bus_out & 0xf0) == ctx->addr ||
+        if ((bus_out & 0xf0) == (ctx->addr & 0xf0) &&
               ((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) == 0) {
             /* Respond with busy if status still raised */
             if ((ctx->IG_REG & BIT5) != 0) {
-- 
2.43.0


From 44d84c2b7a164668601a102815557da9c55763b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:44 +0000
Subject: [PATCH 71/76] fix: 2844: selecting a drive which is not there used a
 null pointer

---
 src/model2844/model2844.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 65d2418..8a2a07c 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -532,7 +532,8 @@ step_2844(void *data)
           ctx->Abus = ctx->IE & 0x1e;
           break;
    case 0x17:    /* OA */   /* Old address */
-          ctx->Abus = dasd_cur_cyl(ctx->disk[ctx->unit_num]);
+          ctx->Abus = (ctx->disk[ctx->unit_num] != NULL) ?
+                         dasd_cur_cyl(ctx->disk[ctx->unit_num]) : 0;
           break;
    case 0x18:    /* CX */
           ctx->Abus = ctx->CX_REG;
@@ -664,14 +665,16 @@ step_2844(void *data)
            if (sal->CN & 4)
                ctx->FT |= ctx->Alu_out;
            ctx->burst_odd = (ctx->FT & 2) != 0;
-           dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
+           if (ctx->disk[ctx->unit_num] != NULL)
+               dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
            break;
    case 14:  /* FC */
            /* Drive FC register */
            ctx->FC &= ~ctx->Alu_out;
            if (sal->CN & 4)
                ctx->FC |= ctx->Alu_out;
-           dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
+           if (ctx->disk[ctx->unit_num] != NULL)
+               dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
            break;
    case 15:  /* IG */
            ctx->IG_REG = ctx->Alu_out;
-- 
2.43.0


From 04f55f904700a44636174811375c20bd61d5417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 72/76] fix: card: punch code of + was that of &

---
 src/device/card.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 30dfb65..866c9aa 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -131,8 +131,8 @@ static const uint16_t       ascii_to_hol_ebcdic[128] = {
    /* none   Y28    78      38    Y38    T48    X      58  */
     0x000, 0x482, 0x006, 0x042, 0x442, 0x222, 0x800, 0x012,     /* 40 - 77 */
    /*   (      )      *      +      ,      -      .      / */
-   /* X58    Y58    Y48    X      T38    Y      X38    T1  */
-    0x812, 0x412, 0x422, 0x800, 0x242, 0x400, 0x842, 0x300,
+   /* X58    Y58    Y48    X68    T38    Y      X38    T1  */
+    0x812, 0x412, 0x422, 0x80A, 0x242, 0x400, 0x842, 0x300,
    /*   0      1      2      3      4      5      6      7 */
    /* T      1      2      3      4      5      6      7   */
     0x200, 0x100, 0x080, 0x040, 0x020, 0x010, 0x008, 0x004,
-- 
2.43.0


From fd33120686e7a06f27249e264eb6f4e412f4bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 73/76] fix: 1443: command with bad parity was still carried
 out

---
 src/model1443/model1443.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index b8566de..95df424 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -263,6 +263,13 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                      break;
                  }
+                 /* A command with bad parity is not carried out */
+                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                     ctx->cmd = 0;
+                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                     ctx->sense = SENSE_BUSCHK;
+                     break;
+                 }
                  switch (ctx->cmd & 07) {
                  case 0: /* Test I/O */
                         break;
@@ -331,11 +338,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         ctx->sense = SENSE_CMDREJ;     /* Invalid command */
                         break;
                  }
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                     ctx->cmd = 0;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     ctx->sense |= SENSE_BUSCHK;
-                 }
              }
              break;
 
-- 
2.43.0


From 870cd88adeb58d29fcb1c3fc02d52c1d8094a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 74/76] fix: 2030: console DISPLAY and STORE used a wrong
 address register and spoiled the parity

---
 src/model2030/cpu2030.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index c6a6376..d906e9f 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -567,17 +567,17 @@ cycle_2030()
                        break;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG & 0xff];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG & 0xff];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) |
                                                  (cpu_2030.N_REG & 0xff);
                    if (E_SW == 0x20) {
-                       cpu_2030.R_REG = M[cpu_2030.MN_REG] ^ 0x100;
+                       cpu_2030.R_REG = M[cpu_2030.MN_REG];
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
                        cpu_2030.R_REG = cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) |
-                                        (cpu_2030.N_REG & 0xff)] ^ 0x100;
+                                        (cpu_2030.N_REG & 0xff)];
                        cpu_2030.store = LOCAL;
                    }
                    break;
@@ -632,15 +632,15 @@ cycle_2030()
                    cpu_2030.R_REG = cpu_2030.Alu_out;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
                    if (E_SW == 0x20) {
-                       M[cpu_2030.MN_REG] = cpu_2030.R_REG ^ 0x100;
+                       M[cpu_2030.MN_REG] = cpu_2030.R_REG;
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
-                       cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG ^ 0x100;
+                       cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG;
                        cpu_2030.store = LOCAL;
                    }
                    cpu_2030.Abus = cpu_2030.R_REG;
-- 
2.43.0


From 21db06d23daeb02bac4e7fce80d736c19e77cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 75/76] fix: 2030: an interval timer interruption was not taken
 on its own

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index d906e9f..8af344a 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -677,6 +677,9 @@ cycle_2030()
            timer_update = 1;
        }
    }
+   if (timer_update) {
+       interrupt = 1;
+   }
    if ((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) {
        interrupt = 1;
    }
-- 
2.43.0


From a264ca16a72093c56356d34aa30dbf472830e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:46 +0000
Subject: [PATCH 76/76] fix: 2030: system reset left selector and multiplexor
 channel latches set

---
 src/model2030/cpu2030.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8af344a..b71acbe 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -411,6 +411,22 @@ cycle_2030()
       inh_stg_prot = 0;
       alu_chk = 0;
       cpu_2030.ASCII = 0;
+      cpu_2030.FT &= BIT4;
+      for (i = 0; i < 2; i++) {
+          sel_read_cycle[i] = 0;
+          sel_write_cycle[i] = 0;
+          sel_gr_full[i] = 0;
+          sel_halt_io[i] = 0;
+          sel_poll_ctrl[i] = 0;
+          sel_cnt_rdy_not_zero[i] = 0;
+          sel_cnt_rdy_zero[i] = 0;
+          sel_bus_out_ctrl[i] = 0;
+          sel_chan_busy[i] = 0;
+          sel_intrp_lch[i] = 0;
+          sel_status_stop_cond[i] = 0;
+          sel_chain_req[i] = 0;
+          sel_chain_det[i] = 0;
+      }
       SYS_RST = 0;
       if (LOAD == 0) {
          cpu_2030.load_mode = 0;
-- 
2.43.0

