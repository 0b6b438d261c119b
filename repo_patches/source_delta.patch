From e40c22b208f1527ae813b61162448a7293eeb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 01/16] sim: guarded hook routing std through a simulator shim
 (--cfg llm_samplers_sim)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 11c4e01..1bd8cc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,6 +121,13 @@
 //! 4. [SampleTemperature](crate::samplers::SampleTemperature) (optional)
 //! 5. [SampleMirostat1](crate::samplers::SampleMirostat1) **or** [SampleMirostat2](crate::samplers::SampleMirostat2)
 
+#![allow(unexpected_cfgs)] // `llm_samplers_sim`, below
+
+// Simulation hook, off by default: with `--cfg llm_samplers_sim` every `std::` path in this
+// crate resolves to a simulator's drop-in for `std`, whose locks are scheduling points.
+#[cfg(llm_samplers_sim)]
+extern crate llm_samplers_simstd as std;
+
 /// # Samplers live here!
 ///
 /// Visiting the structs below is probably going to be more helpful than going to the modules.
-- 
2.43.0


From a8e5c80cbf305f0da22b0b2ad9359ae32ada4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 02/16] fix: forward sample_prepend through boxed and shared
 samplers

The wrappers fell back to the trait's empty default, so a sampler's prefix
was silently dropped as soon as it was boxed, shared or put in a chain.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From cae3f6a6a201072b4890079c68cd139932dd9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 03/16] fix: tail free sampling of exactly two candidates

Two candidates have one first derivative and no second one; the loop asked
for it anyway and failed with an internal error.
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..2fe90c0 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() < 3 {
             return Ok(logits);
         }
 
-- 
2.43.0


From c1199dc1b1d9346a40a288d12e74f1402b691b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 04/16] fix: locally typical sampling with zero-probability
 candidates

0 * ln(0) is NaN, which poisoned the entropy and made the sampler fail on
any list holding a banned or very unlikely token.
---
 src/samplers/locally_typical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..bc19294 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -69,6 +69,7 @@ impl Sampler for SampleLocallyTypical {
 
         let ent = logits
             .iter()
+            .filter(|l| l.prob > 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From e909e795287bf1318b3aa8f94c84fc9a1185fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 05/16] fix: mirostat 2 keeps everything when nothing is too
 surprising

With no candidate above mu the search found nothing and the list was cut to
a single token.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From b8d65752e7b88e720581bc6f7d7a9328b3e0ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 06/16] fix: random distribution reports no token when the RNG
 access failed

A provider that fails after running the callback left the token picked by
the failed call behind as if it had been sampled.
---
 src/samplers/rand_distrib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/samplers/rand_distrib.rs b/src/samplers/rand_distrib.rs
index be6b0ef..3f1a824 100644
--- a/src/samplers/rand_distrib.rs
+++ b/src/samplers/rand_distrib.rs
@@ -43,9 +43,11 @@ impl Sampler for SampleRandDistrib {
         })?;
         let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
             .map_err(SamplerError::RandWeightedError)?;
+        let mut token_id = None;
         res.with_rng_mut(&mut |r| {
-            self.token_id = Some(logits[dist.sample(r)].token_id);
+            token_id = Some(logits[dist.sample(r)].token_id);
         })?;
+        self.token_id = token_id;
         Ok(logits)
     }
 
-- 
2.43.0


From bc5fcfccf14b20859260bf1db39af0d3c91e115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 07/16] fix: repetition penalty leaves the logits alone when
 the history access fails

The penalty was applied inside the access callback: a provider failing
afterwards left penalised logits still marked sorted and normalised.
---
 src/samplers/repetition.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/samplers/repetition.rs b/src/samplers/repetition.rs
index fc078d3..f4dea61 100644
--- a/src/samplers/repetition.rs
+++ b/src/samplers/repetition.rs
@@ -67,26 +67,28 @@ impl Sampler for SampleRepetition {
         }
 
         let mut changed = 0;
+        let mut seen = vec![];
         res.with_last_tokens(&mut |tokens| {
             let tokens = if last_n > tokens.len() {
                 tokens
             } else {
                 &tokens[tokens.len() - last_n..]
             };
-
-            logits
-                .iter_mut()
-                .filter(|l| tokens.contains(&l.token_id))
-                .for_each(|l| {
-                    l.logit = if l.logit <= 0f32 {
-                        l.logit * repetition_penalty
-                    } else {
-                        l.logit / repetition_penalty
-                    };
-                    changed += 1;
-                });
+            seen = tokens.to_vec();
         })?;
 
+        logits
+            .iter_mut()
+            .filter(|l| seen.contains(&l.token_id))
+            .for_each(|l| {
+                l.logit = if l.logit <= 0f32 {
+                    l.logit * repetition_penalty
+                } else {
+                    l.logit / repetition_penalty
+                };
+                changed += 1;
+            });
+
         if changed > 0 {
             logits.set_sorted(false);
             logits.set_softmax(false);
-- 
2.43.0


From 40790c67f3da302e6f966e03b78ac8c9631c4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 08/16] fix: a negative temperature reverses the order of the
 logits

The list stayed marked as sorted, so greedy and top-k then took the least
likely tokens.
---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..c666ab2 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                // Dividing by a negative number reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From 304823d22d050cb87e33290a753294c73f6ddb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 09/16] fix: an exact option name is not ambiguous

A name that is also a prefix of another option's, such as mirostat 1's m
and mu, could not be set or read at all.
---
 src/configure/metadata.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..03f0a58 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -82,6 +82,12 @@ impl<T> SamplerOptions<T> {
         };
 
         if it.next().is_some() {
+            // A full option name is never ambiguous.
+            if let Some((idx, (omd, acc))) =
+                self.iter().enumerate().find(|(_, (omd, _))| omd.key == key)
+            {
+                return Ok((omd.clone(), acc.is_some().then_some(idx)));
+            }
             Err(ConfigureSamplerError::AmbiguousKey(key.to_string()))?
         }
 
-- 
2.43.0


From 26cf9ad9f118b5abf2354a27311945f13ed01a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 10/16] fix: a chain takes a stage's token in the same call
 that sampled it

Sampling and asking for the token were two calls; with a stage shared
between chains another chain could sample in between, and this one then
reported the other's token.
---
 src/chain.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..6da3587 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,9 +47,8 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
-                let new_logits = sampler.sample(res, logits)?;
-                self.token = sampler.sampled_token_id();
-                Ok(new_logits)
+                self.token = sampler.sample_token(res, logits)?;
+                Ok(logits)
             })
     }
 
-- 
2.43.0


From bae9b2855ad9a6abbf739b9fbb51e606582d92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 11/16] fix: a chain reports no token after a failed call

When a stage failed, the token of the stage before it was left behind as
the chain's result.
---
 src/chain.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chain.rs b/src/chain.rs
index 6da3587..d487a6f 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,6 +47,7 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
+                self.token = None;
                 self.token = sampler.sample_token(res, logits)?;
                 Ok(logits)
             })
-- 
2.43.0


From 2171d8fd01df2a9b0b9cd9eef14cc8ae92b949b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 12/16] fix: mirostat 1 uses the published estimate of k

The exponent is fitted to log ratios of adjacent probabilities, and
k = (eps * 2^mu / (1 - N^-eps))^(1/s). The log, the power of two and the
parentheses were lost, so k hardly followed mu and the mean surprise settled
away from tau.
---
 src/samplers/mirostat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..b13b53f 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
@@ -143,7 +143,7 @@ impl Sampler for SampleMirostat1 {
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
         let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+            (epsilon_hat * mu.exp2() / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From 79dd793752d634c070dc95d05d9c1b6b7058eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 13/16] fix: mirostat 1 when the likeliest tokens follow Zipf's
 law exactly

An exponent of one makes the estimate 0/0; k became NaN and every token the
likeliest one. Near one, the subtraction lost all its digits. Use the limit
and exp_m1.
---
 src/samplers/mirostat.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index b13b53f..67d110c 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -142,8 +142,14 @@ impl Sampler for SampleMirostat1 {
         };
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
-        let k =
-            (epsilon_hat * mu.exp2() / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
+        // epsilon / (1 - N^-epsilon), which tends to 1 / ln(N) at zero.
+        let ln_n = n_vocab.ln();
+        let scale = if epsilon_hat == 0f32 {
+            1f32 / ln_n
+        } else {
+            epsilon_hat / -(-epsilon_hat * ln_n).exp_m1()
+        };
+        let k = (scale * mu.exp2()).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From e206f8e1fbd099117273112896bfa73239941fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 14/16] fix: sequence repetition merges at most max_merge
 tokens, and does not overflow

The documentation says that max_merge 0 or 1 deactivates merging and that 2
lets a wildcard match two consecutive tokens; the window was one longer, and
its size overflowed for the largest value.
---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..9f290b8 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From e3a65f4398988668d90f8f87552e531e4bb068d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 15/16] fix: sequence repetition does not overflow on a huge
 min_length

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 9f290b8..832f2a9 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen / 2 < min_len {
         return Vec::default();
     }
 
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() / 2 < min_length {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From f53c03dc8d1eb32660f878e43b4297fb6f282a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 16/16] fix: building the best k candidates does not allocate
 for k up front

---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 0396812..e99dd59 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -164,13 +164,16 @@ impl Logits {
             return Ok(Self::default());
         }
 
+        let it = it.into_iter();
+        // Not simply k: it may be far greater than the number of logits.
+        let capacity = k.min(it.size_hint().0);
         Ok(Logits {
             sorted: true,
             has_softmax: false,
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0

