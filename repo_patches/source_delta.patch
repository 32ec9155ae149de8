From 551bc3237f94e8152cd14757dd7926f624c2e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 01/42] fix: random excursions tests failed on every input with
 newer SciPy

scipy.stats.chisquare raises when the expected counts do not sum to the
observed ones, which the rounded probability tables never quite do.
---
 src/coinflip/_randtests/random_walk.py | 10 ++++++++--
 src/coinflip/randtests_refimpl.py      | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c70ca96..ca57b47 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -9,7 +9,7 @@ import altair as alt
 import numpy as np
 import pandas as pd
 from rich.text import Text
-from scipy.stats import chisquare
+from scipy.special import gammaincc
 from scipy.stats import norm
 
 from coinflip._randtests.common.collections import Bins
@@ -167,7 +167,13 @@ def random_excursions(series, heads, tails, ctx):
 
         bincounts = state_count_bins[state].values()
 
-        chi2, p = chisquare(list(bincounts), expected_bincounts)
+        # scipy's chisquare() rejects expected counts which do not sum exactly to
+        # ncycles, but the probabilities are rounded so they only nearly do
+        chi2 = sum(
+            (count - expect) ** 2 / expect
+            for count, expect in zip(bincounts, expected_bincounts)
+        )
+        p = gammaincc(df / 2, chi2 / 2)
 
         results[state] = RandomExcursionsSubTestResult(chi2, p, state)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 17f2499..6f71d97 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -245,7 +245,7 @@ def overlapping_template_matching(
         i = min(matches, 5)
         tallies[i] += 1
 
-    chi2, p = chisquare(tallies, expected_tallies)
+    chi2, p = chisquare_rounded(tallies, expected_tallies)
 
     return chi2, p
 
@@ -451,7 +451,7 @@ def random_excursions(sequence: List[Literal[0, 1]]):
 
         bincounts = state_count_bins[state].values()
 
-        chi2, p = chisquare(list(bincounts), expected_bincounts)
+        chi2, p = chisquare_rounded(bincounts, expected_bincounts)
 
         statistics.append(chi2)
         pvalues.append(p)
@@ -484,6 +484,18 @@ def random_excursions_variant(sequence: List[Literal[0, 1]]):
 # Helpers
 
 
+def chisquare_rounded(observed, expected) -> Tuple[float, float]:
+    """Chi-square test where probabilities were rounded
+
+    scipy's own chisquare() rejects expected counts which do not sum exactly to
+    the observed counts.
+    """
+    chi2 = sum((obs - exp) ** 2 / exp for obs, exp in zip(observed, expected))
+    p = gammaincc((len(expected) - 1) / 2, chi2 / 2)
+
+    return chi2, p
+
+
 def asruns(sequence: List[Literal[0, 1]]) -> Iterator[Tuple[Literal[0, 1], int]]:
     run_val = sequence[0]
     run_len = 1
-- 
2.43.0


From a88b29d1f5b80c39e1b46c18e8fd4dee7315ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 02/42] fix: non-overlapping template matching only counted
 aligned matches

Blocks were split into template-sized chunks, instead of sliding a window
which skips past each match, so templates straddling chunks were missed.
---
 src/coinflip/_randtests/template.py | 12 +++++++-----
 src/coinflip/randtests_refimpl.py   |  7 +++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 328bf0f..e260d72 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -28,7 +28,6 @@ from coinflip._randtests.common.result import make_chisquare_table
 from coinflip._randtests.common.result import make_testvars_table
 from coinflip._randtests.common.result import plot_chi2_dist
 from coinflip._randtests.common.testutils import blocks
-from coinflip._randtests.common.testutils import rawblocks
 from coinflip._randtests.common.testutils import slider
 from coinflip._randtests.common.typing import Face
 from coinflip._randtests.common.typing import Float
@@ -61,8 +60,8 @@ def non_overlapping_template_matching(
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
 
-    nblocks_sub = blocksize // template_size
-    set_task_total(ctx, 1 + nblocks * (nblocks_sub + 1) + 1)
+    nwindows = blocksize - template_size + 1
+    set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
 
     failures = check_recommendations(
         ctx,
@@ -85,9 +84,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(blocks(series, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)  # where a template can be matched again
 
-        for window_tup in rawblocks(block, template_size):
-            matches[window_tup] += 1
+        for pos, window_tup in enumerate(slider(tuple(block), template_size)):
+            if pos >= next_pos[window_tup]:
+                matches[window_tup] += 1
+                next_pos[window_tup] = pos + template_size
 
             advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 6f71d97..4cf89e7 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -198,8 +198,11 @@ def non_overlapping_template_matching(
     for i, block in enumerate(chunked(sequence, blocksize)):
         matches = defaultdict(int)
 
-        for window in windowed(block, template_size):
-            matches[window] += 1
+        next_pos = defaultdict(int)  # where a template can be matched again
+        for pos, window in enumerate(windowed(block, template_size)):
+            if pos >= next_pos[window]:
+                matches[window] += 1
+                next_pos[window] = pos + template_size
 
         for template, matches in matches.items():
             template_block_matches[template][i] = matches
-- 
2.43.0


From a52b103d7cd2b1906f814620491f6603f7863db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 03/42] fix: NaN p-values in serial and approximate entropy
 tests

Rounding errors could make the statistic of very uniform sequences slightly
negative, for which gammaincc() returns NaN.
---
 src/coinflip/_randtests/entropy.py | 3 ++-
 src/coinflip/_randtests/serial.py  | 3 +++
 src/coinflip/randtests_refimpl.py  | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 1ad45e4..94cb15b 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -64,7 +64,8 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
         advance_task(ctx)
 
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    # cannot be negative, but rounding errors can make it out as such
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 29b84d3..7622287 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -63,7 +63,9 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     advance_task(ctx)
 
+    # neither delta can be negative, but rounding errors can make them out as such
     normsum_delta1 = normalised_sums[blocksize] - normalised_sums[blocksize - 1]
+    normsum_delta1 = max(normsum_delta1, 0.0)
     p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
 
     normsum_delta2 = (
@@ -71,6 +73,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
         - 2 * normalised_sums[blocksize - 1]
         + normalised_sums[blocksize - 2]
     )
+    normsum_delta2 = max(normsum_delta2, 0.0)
     p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
 
     advance_task(ctx)
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 4cf89e7..e944208 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -329,6 +329,8 @@ def serial(sequence: List[Literal[0, 1]], blocksize: int):
         + normalised_sums[blocksize - 2],
     ]
 
+    normsum_deltas = [max(delta, 0.0) for delta in normsum_deltas]
+
     pvalues = [
         gammaincc(2 ** (blocksize - 2), normsum_deltas[0] / 2),
         gammaincc(2 ** (blocksize - 3), normsum_deltas[1] / 2),
@@ -382,7 +384,7 @@ def approximate_entropy(sequence: List[Literal[0, 1]], blocksize: int):
         phis.append(phi)
 
     approx_entropy = phis[0] - phis[1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     return chi2, p
-- 
2.43.0


From 157932d50f6678c273ae071c1f90e5247116fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 04/42] fix: cusum p-values exceeded 1 for short sequences

---
 src/coinflip/_randtests/random_walk.py | 1 +
 src/coinflip/randtests_refimpl.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index ca57b47..0b5c560 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -67,6 +67,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
             for k in np.arange(start2, stop, 1)
         )
     )
+    p = min(max(p, 0.0), 1.0)  # the truncated series can overshoot for small n
 
     advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index e944208..97e2948 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -418,6 +418,7 @@ def cusum(sequence: List[Literal[0, 1]], reverse: bool = False):
             )
         )
     )
+    p = min(max(p, 0.0), 1.0)  # the truncated series can overshoot for small n
 
     return max_cusum, p
 
-- 
2.43.0


From 6aa3e96d594db4684c91a247afa117c8466dc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 05/42] fix: NaN p-values in template tests of very short
 sequences

The default blocksizes were larger than the sequence (non-overlapping) or
smaller than the template (overlapping).
---
 src/coinflip/_randtests/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index e260d72..a6e2ef2 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -52,7 +52,7 @@ def non_overlapping_template_matching(
     n = len(series)
 
     if not blocksize:
-        blocksize = max(ceil(0.01 * n), 6)
+        blocksize = min(max(ceil(0.01 * n), 6), n)
         if blocksize % 2 != 0:
             blocksize -= 1
     nblocks = n // blocksize
@@ -201,7 +201,7 @@ def overlapping_template_matching(
     df = matches_ceil  # there are matches_ceil + 1 independent scores
 
     if not blocksize:
-        blocksize = floor(sqrt(n))
+        blocksize = max(floor(sqrt(n)), 2)
     nblocks = n // blocksize
 
     if not template_size:
-- 
2.43.0


From 77c872b46ef8601c3eb66cdc1c28e6b81f496c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 06/42] fix: wrong expected linear complexity mean for odd
 blocksizes

-(1 ** (M + 1)) is always -1, whereas (-1) ** (M + 1) alternates.
---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index ccf4936..646667d 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -69,7 +69,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
 
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 97e2948..150a390 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -347,7 +347,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     probabilities = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
-- 
2.43.0


From e74ea0670a074b50173e00a14e97221226fa2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 07/42] fix: faces of an earlier sequence were used for
 equal-valued later ones

infer_faces() and determine_rep() were cached, and 1 == True == 1.0, so
testing [0, 1, ..] made later tests on [False, True, ..] fail or misbehave.
---
 src/coinflip/_randtests/common/core.py   | 2 --
 src/coinflip/_randtests/common/pprint.py | 2 --
 src/coinflip/_randtests/frequency.py     | 3 ---
 3 files changed, 7 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 8f985ac..4a41b97 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import lru_cache
 from functools import wraps
 from typing import Dict
 from typing import List
@@ -106,7 +105,6 @@ def randtest(min_n=2):
     return decorator
 
 
-@lru_cache()
 def infer_faces(unique_values: Tuple[Face, Face]) -> Tuple[Face, Face]:
     """Infers the `heads` and `tails` faces from a list of unique values
 
diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index abbd1ca..2b15f05 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Iterable
 from typing import Tuple
 
@@ -21,7 +20,6 @@ def make_warning(msg: str) -> Table:
     return grid
 
 
-@lru_cache()
 def determine_rep(heads, tails) -> Tuple[str, str]:
     """Determine single-character representations of each binary value
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 1a6c84e..5c1ed8d 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -1,6 +1,5 @@
 from collections import Counter
 from dataclasses import dataclass
-from functools import lru_cache
 from math import ceil
 from math import erfc
 from math import sqrt
@@ -38,12 +37,10 @@ class FaceCounts(NamedTuple):
     tails: FaceCount
 
     @property
-    @lru_cache()
     def max(self):
         return max(*self, key=attrgetter("count"))
 
     @property
-    @lru_cache()
     def min(self):
         return min(*self, key=attrgetter("count"))
 
-- 
2.43.0


From 0fda5e5732b6ea12b1f048c9364e2d1763d9c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 08/42] fix: sequences with missing values were accepted as
 binary

nunique() ignores missing values.
---
 src/coinflip/_randtests/common/core.py | 2 +-
 src/coinflip/cli/parsing.py            | 2 +-
 src/coinflip/cli/runner.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 4a41b97..bdd5fa5 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -86,7 +86,7 @@ def randtest(min_n=2):
             else:
                 series = pd.Series(sequence)
 
-            if series.nunique() != 2:
+            if series.nunique() != 2 or series.hasnans:
                 raise NonBinarySequenceError()
 
             n = len(series)
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 795297d..518a352 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -57,7 +57,7 @@ def parse_text(data_file) -> pd.Series:
         raise MultipleColumnsError(ncols)
     series = df.iloc[:, 0]
 
-    if series.nunique() != 2:
+    if series.nunique() != 2 or series.hasnans:
         raise NonBinarySequenceError()
 
     series = series.infer_objects()
diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 1850e7e..287ce41 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -80,7 +80,7 @@ def binary_check(func):
 
     @wraps(func)
     def wrapper(series, *args, **kwargs):
-        if series.nunique() != 2:
+        if series.nunique() != 2 or series.hasnans:
             raise NonBinarySequenceError()
 
         return func(series, *args, **kwargs)
-- 
2.43.0


From c63f54cd75fd4a824f02e20baffe40e3869b4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 09/42] fix: index of a Series affected test results

Slicing is label-based for some indexes (e.g. floats), and slices only by
position for others. The index has no meaning to the tests.
---
 src/coinflip/_randtests/common/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index bdd5fa5..3dc3621 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -93,6 +93,9 @@ def randtest(min_n=2):
             if n < min_n:
                 raise MinimumInputError(n, min_n)
 
+            # only the order of values matters, whereas labels can affect slicing
+            series = series.reset_index(drop=True)
+
             values = series.unique()
             heads, tails = infer_faces(tuple(values))
 
-- 
2.43.0


From b82371e551195b84839114d60c1e26fb88d590ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 10/42] fix: random walk tests failed on categoricals, and
 templates on datetimes

---
 src/coinflip/_randtests/common/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 3dc3621..914dc61 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -95,8 +95,11 @@ def randtest(min_n=2):
 
             # only the order of values matters, whereas labels can affect slicing
             series = series.reset_index(drop=True)
+            if pd.api.types.is_categorical_dtype(series):
+                series = series.astype(series.cat.categories.dtype)
 
-            values = series.unique()
+            # unique() can return values of other types than what iterating yields
+            values = series.drop_duplicates()
             heads, tails = infer_faces(tuple(values))
 
             result = func(series, heads, tails, ctx, **kwargs)
-- 
2.43.0


From 6f3214d2f433da3df3317e6e4f2b4e570c4e87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 11/42] fix: defaultlist slice assignments and deletions
 misplaced elements

Resizing slice assignments left duplicates of the elements they moved, or
overwrote the element at the insertion point. Extended slice assignments
wrote to consecutive indices. Extended slice deletions collapsed unset
elements inbetween the deleted ones.
---
 src/coinflip/_randtests/common/collections.py | 77 ++++++-------------
 1 file changed, 24 insertions(+), 53 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 18a8eba..d80e1ba 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -5,7 +5,6 @@ from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
 from functools import lru_cache
-from itertools import chain
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -168,38 +167,24 @@ class defaultlist(MutableSequence):
             nvalues = len(values)
 
             srange = self._determine_srange(key)
-            if srange:
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-            else:
-                srange_min = srange_max = srange.start
-
-            for i in srange:
-                try:
-                    del self._ddict[i]
-                except KeyError:
-                    pass
-
-            diff = nvalues - len(srange)
-            if diff:
-                keys = list(self._ddict.keys())
 
-                threshold = srange_min + nvalues
-                reindexed_subdict = {}
+            if nvalues == len(srange):
+                for i, v in zip(srange, values):
+                    self._ddict[i] = v
 
-                mid_keys = [k for k in keys if srange_min <= k < srange_max]
-                for i, k in enumerate(sorted(mid_keys), start=threshold):
-                    reindexed_subdict[i] = self._ddict[k]
+            else:
+                start = min(srange, default=srange.start)
 
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k + diff
-                    reindexed_subdict[i] = self._ddict[k]
+                self._delete_srange(srange)
 
+                larger_keys = [k for k in self._ddict.keys() if k >= start]
+                reindexed_subdict = {
+                    k + nvalues: self._ddict.pop(k) for k in larger_keys
+                }
                 self._ddict.update(reindexed_subdict)
 
-            for i, v in enumerate(values, start=srange_min):
-                self[i] = v
+                for i, v in enumerate(values, start=start):
+                    self._ddict[i] = v
 
         else:
             defaultlist._raise_type_error(type(key))
@@ -220,36 +205,22 @@ class defaultlist(MutableSequence):
 
         elif isinstance(key, slice):
             srange = self._determine_srange(key)
-            if srange:
-                for i in srange:
-                    try:
-                        del self._ddict[i]
-                    except KeyError:
-                        pass
-
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-
-                reindexed_subdict = {}
-
-                mid_keys = [
-                    k for k in self._ddict.keys() if srange_min <= k < srange_max
-                ]
-                for i, k in enumerate(sorted(mid_keys), start=srange_min):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k - len(srange)
-                    reindexed_subdict[i] = self._ddict[k]
-
-                for k in chain(mid_keys, larger_keys):
-                    del self._ddict[k]
-                self._ddict.update(reindexed_subdict)
+            self._delete_srange(srange)
 
         else:
             defaultlist._raise_type_error(type(key))
 
+    def _delete_srange(self, srange: range):
+        """Removes elements in the range, so later elements fill their place"""
+        removed = srange if srange.step > 0 else srange[::-1]
+        reindexed_dict = {
+            k - bisect_left(removed, k): v
+            for k, v in self._ddict.items()
+            if k not in removed
+        }
+        self._ddict.clear()
+        self._ddict.update(reindexed_dict)
+
     def _actualise_index(self, key: int) -> int:
         if key >= 0:
             return key
-- 
2.43.0


From 1e58421a05e8ac469327f6cd89e1169941627af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 12/42] fix: defaultlist reverse slices skipped the first
 element

e.g. dlist[::-1] had an additional default value instead.
---
 src/coinflip/_randtests/common/collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index d80e1ba..4568956 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -237,12 +237,12 @@ class defaultlist(MutableSequence):
         step = slice_.step or 1
 
         if slice_.start is None:
-            start = 0 if step > 0 else len(self)
+            start = 0 if step > 0 else len(self) - 1
         else:
             start = self._actualise_index(slice_.start)
 
         if slice_.stop is None:
-            stop = len(self) if step > 0 else 0
+            stop = len(self) if step > 0 else -1
         else:
             stop = self._actualise_index(slice_.stop)
 
-- 
2.43.0


From 386a7fa2897e27cb68181145733e38560e1c2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 13/42] fix: defaultlist.insert() with negative indices
 corrupted the list

---
 src/coinflip/_randtests/common/collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 4568956..d04ccc1 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -268,6 +268,7 @@ class defaultlist(MutableSequence):
 
     def insert(self, i: int, value: Any):
         """"""
+        i = self._actualise_index(i)
         larger_keys = [k for k in self._ddict.keys() if k >= i]
         reindexed_subdict = {k + 1: self._ddict[k] for k in larger_keys}
         for k in larger_keys:
-- 
2.43.0


From d2acbece932c88cad3a437fc1f26799388927a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 14/42] fix: Bins had no intervals when initialised with an
 iterator

---
 src/coinflip/_randtests/common/collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index d04ccc1..e8d86a3 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -55,6 +55,7 @@ class Bins(MutableMapping):
     """
 
     def __init__(self, intervals: Iterable[Real]):
+        intervals = tuple(intervals)  # might be an iterator
         counts = Counter(intervals)
         if any(count > 1 for count in counts.values()):
             raise ValueError("Duplicate intervals for binning were passed")
-- 
2.43.0


From 278e26febeafce0dcfd215c454acb0e11715aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 15/42] fix: deleting the last of the Bins (e.g. via clear())
 raised IndexError

---
 src/coinflip/_randtests/common/collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index e8d86a3..76f0577 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -78,7 +78,8 @@ class Bins(MutableMapping):
     def __delitem__(self, key: Real):
         value = self._sdict[key]
         del self._sdict[key]
-        self[key] += value
+        if self._sdict:
+            self[key] += value
 
     def _roundkey(self, key: Real):
         return Bins.find_closest_interval(self.intervals, key)
-- 
2.43.0


From ceb5797fa44090264c0ed130f6945c433d0b0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 16/42] fix: matrix_rank() overflowed for wide matrices of
 NumPy integers

---
 src/coinflip/_randtests/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index e42c63a..79ef3a2 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -225,6 +225,6 @@ def bits2int(bits: Iterable[Literal[0, 1]]) -> Integer:
     """Converts a list of bits into a numerical representation"""
     num = 0
     for bit in bits:
-        num = (num << 1) | bit
+        num = (num << 1) | int(bit)  # fixed-width ints could overflow
 
     return num
-- 
2.43.0


From cb861181482b34bf6bef975664dd862914e19c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 17/42] fix: binary matrix rank misreported its minimum length
 recommendation
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Sequences of length 128 to 151 were told that n ≥ 128 was not met.
---
 src/coinflip/_randtests/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index 79ef3a2..bf0011c 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -55,7 +55,7 @@ def binary_matrix_rank(
     failures = check_recommendations(
         ctx,
         {
-            "n ≥ 128": n >= 152,  # nblocks=38, blocksize=4
+            "n ≥ 152": n >= 152,  # nblocks=38, blocksize=4
             "n ≥ 38 * blocksize": n >= 38 * blocksize,
         },
     )
-- 
2.43.0


From af3939f58b46686e869562fd8142c2128d6d7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 18/42] fix: maurers_universal ignored blocksize or
 init_nblocks passed on its own

---
 src/coinflip/_randtests/universal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index e767f78..f403a66 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -90,11 +90,13 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     if not blocksize or not init_nblocks:
         try:
-            blocksize, init_nblocks = n_defaults[n]
+            defaults = n_defaults[n]
         except KeyError:
-            blocksize = min(max(ceil(log(n)), 2), 16)  # largest blocksize_dists key
-            nblocks = n // blocksize
-            init_nblocks = max(nblocks // 100, 1)
+            default_blocksize = min(max(ceil(log(n)), 2), 16)  # 16 is largest dists key
+            nblocks = n // (blocksize or default_blocksize)
+            defaults = DefaultParams(default_blocksize, max(nblocks // 100, 1))
+        blocksize = blocksize or defaults.blocksize
+        init_nblocks = init_nblocks or defaults.init_nblocks
 
     init_n = init_nblocks * blocksize
     init_series, segment_series = series[:init_n], series[init_n:]
-- 
2.43.0


From a7e9ea7a1b62ce6f0a3452f40fd5dba9c434cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 19/42] fix: reference frequency_within_block counted the
 partial last block

---
 src/coinflip/randtests_refimpl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 150a390..a865799 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -63,8 +63,10 @@ def frequency_within_block(sequence: List[Literal[0, 1]], blocksize: int):
     n = len(sequence)
     nblocks = n // blocksize
 
+    trunc_sequence = sequence[: nblocks * blocksize]
+
     deviations = []
-    for block in chunked(sequence, blocksize):
+    for block in chunked(trunc_sequence, blocksize):
         ones = sum(1 for bit in block if bit == 1)
         prop = ones / blocksize
         dev = prop - 1 / 2
-- 
2.43.0


From 8f951ff8d92ec1dcaf29e693e2b57451b59b2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 20/42] fix: printing sequences containing empty strings raised
 IndexError

---
 src/coinflip/_randtests/common/pprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index 2b15f05..3c0b191 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -37,9 +37,9 @@ def determine_rep(heads, tails) -> Tuple[str, str]:
     tails_rep : ``str``
         Character representation of the ``tails``
     """
-    heads_rep = str(heads)[0]
-    tails_rep = str(tails)[0]
-    if heads_rep == tails_rep:
+    heads_rep = str(heads)[:1]
+    tails_rep = str(tails)[:1]
+    if heads_rep == tails_rep or not (heads_rep and tails_rep):
         heads_rep = "1"
         tails_rep = "0"
 
-- 
2.43.0


From e653ebe4cb277e65d41d9216c16c1d1db970a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 21/42] fix: wrong number of omitted rows in the printed
 sequence

---
 src/coinflip/cli/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/pprint.py b/src/coinflip/cli/pprint.py
index ad733d0..16b83b0 100644
--- a/src/coinflip/cli/pprint.py
+++ b/src/coinflip/cli/pprint.py
@@ -114,7 +114,7 @@ def pretty_sequence(series, ncols) -> RenderGroup:
                 yield l_arrow + pretty_row(row) + r_arrow
                 yield border
 
-            omit_msg = f"..omitting {nrows - 10} rows.."
+            omit_msg = f"..omitting {nrows - 8} rows.."
             omit_gap = ncols // 2 - len(omit_msg) // 2
             omit_pad = "".join(" " for _ in range(omit_gap))
 
-- 
2.43.0


From 6ed34552fc816c5a043b4d5c97d07623e4594fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 22/42] fix: run succeeded when its results could not be
 written

Errors from flushing the file, which was never closed, were ignored.
---
 src/coinflip/cli/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index fa0d7ac..f53d325 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -23,11 +23,13 @@ class Report:
 def store_results(series: pd.Series, results: Dict[str, BaseTestResult], out: str):
     report = Report(series, results)
 
-    pickle.dump(report, open(out, "wb"))
+    with open(out, "wb") as f:
+        pickle.dump(report, f)
 
 
 def load_results(results_path: Path) -> Report:
-    report = pickle.load(open(results_path, "rb"))
+    with open(results_path, "rb") as f:
+        report = pickle.load(f)
 
     return report
 
-- 
2.43.0


From c91157a5daf6539d1eec83fdf36fea42ad1c9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 23/42] fix: run --binary crashed on data of only zeroes, only
 ones, or nothing

---
 src/coinflip/cli/commands.py | 14 +++++---------
 src/coinflip/cli/parsing.py  |  5 ++++-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 012d3a9..0a4fe26 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -64,15 +64,11 @@ def run(data, out, binary):
     also be used to generate an informational web document via the report
     command.
     """
-    if not binary:
-        try:
-            series = parse_text(data)
-        except (DataParsingError, NonBinarySequenceError) as e:
-            print_error(e)
-            exit(1)
-
-    else:
-        series = parse_binary(data)
+    try:
+        series = parse_binary(data) if binary else parse_text(data)
+    except (DataParsingError, NonBinarySequenceError) as e:
+        print_error(e)
+        exit(1)
 
     print_series(series)
 
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 518a352..fbf6902 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -75,6 +75,9 @@ def parse_binary(data_file) -> pd.Series:
 
             sequence += bits
 
-    series = pd.Series(sequence)
+    series = pd.Series(sequence, dtype="int64")
+
+    if series.nunique() != 2:
+        raise NonBinarySequenceError()
 
     return series
-- 
2.43.0


From 9cd919f757fbfa62babcdb8b514f037db5b084c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 24/42] fix: large text data could be refused as non-binary

read_csv() infers types by chunk, so e.g. a long enough stretch of 0s in data
of 0s and As was read as integers in one chunk, and as strings in the others.
---
 src/coinflip/cli/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index fbf6902..8bfde29 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -50,7 +50,7 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    df = pd.read_csv(data_file, header=None)
+    df = pd.read_csv(data_file, header=None, low_memory=False)
 
     ncols = len(df.columns)
     if ncols > 1:
-- 
2.43.0


From 0482f4cdf7d8b41f1760f2c6912456df1636eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 25/42] fix: overlapping template matching checked a
 recommendation with the wrong variable

---
 src/coinflip/_randtests/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index a6e2ef2..a9d0c0f 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -231,7 +231,7 @@ def overlapping_template_matching(
             "min(expected_tallies) > df": min(expected_tallies) > df,
             "λ ≈ 2": isclose(lambda_, 2),
             "len(template) ≈ log2(nblocks)": isclose(template_size, log2(nblocks)),
-            "df ≈ 2 * λ": isclose(template_size, 2 * lambda_),
+            "df ≈ 2 * λ": isclose(df, 2 * lambda_),
         },
     )
 
-- 
2.43.0


From 30185f302a724ba466771b441631fe24df32d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 26/42] fix: printing monobit results failed on values
 resembling Rich markup

---
 src/coinflip/_randtests/frequency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 5c1ed8d..fd59f89 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -9,6 +9,7 @@ from typing import NamedTuple
 
 import altair as alt
 import pandas as pd
+from rich.text import Text
 from scipy.special import gammaincc
 
 from coinflip._randtests.common.core import *
@@ -82,8 +83,8 @@ class MonobitTestResult(TestResult):
         yield self._pretty_result("normalised diff")
 
         counts = make_testvars_table("value", "count")
-        counts.add_row(str(self.counts.max.value), str(self.counts.max.count))
-        counts.add_row(str(self.counts.min.value), str(self.counts.min.count))
+        counts.add_row(Text(str(self.counts.max.value)), str(self.counts.max.count))
+        counts.add_row(Text(str(self.counts.min.value)), str(self.counts.min.count))
         yield counts
 
     def plot_counts(self):
-- 
2.43.0


From 194db597e5c0e64f965c5cba79b2de9d251a3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 27/42] fix: run and the serial test were needlessly slow

Every sliding window sliced a Series, which made the CLI state machine of
the test suite approach its timeout once its tests could run to the end.
---
 src/coinflip/_randtests/common/testutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/testutils.py b/src/coinflip/_randtests/common/testutils.py
index 9ecfb16..31f0ee2 100644
--- a/src/coinflip/_randtests/common/testutils.py
+++ b/src/coinflip/_randtests/common/testutils.py
@@ -78,9 +78,10 @@ def rawblocks(*args, **kwargs) -> Iterator[Tuple[Any]]:
 
 def slider(series, window_size) -> Iterator[Tuple[Any]]:
     if window_size != 0:
-        boundary = len(series) - window_size + 1
+        values = tuple(series)  # slicing a Series for every window is slow
+
+        boundary = len(values) - window_size + 1
         for pointer in range(0, boundary, 1):
-            window = series[pointer : pointer + window_size]
-            window_tup = tuple(window)
+            window_tup = values[pointer : pointer + window_size]
 
             yield window_tup
-- 
2.43.0


From d7c2c21f66eca2dfe396a02d255f4878263e92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 28/42] fix: monobit results showed the same value twice when
 counts are equal

---
 src/coinflip/_randtests/frequency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index fd59f89..84b2ccc 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -43,7 +43,8 @@ class FaceCounts(NamedTuple):
 
     @property
     def min(self):
-        return min(*self, key=attrgetter("count"))
+        # tails when counts are equal, as max is heads
+        return min(reversed(self), key=attrgetter("count"))
 
     @classmethod
     def from_series(cls, series, heads, tails):
-- 
2.43.0


From 43c1c3e850fbe8d6767c1fee5148f864694eaccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 29/42] fix: linear complexity test failed for block sizes
 above 1025

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 646667d..05842cb 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -70,7 +70,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index a865799..f7246f9 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -350,7 +350,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
-- 
2.43.0


From c36004e8dc8a9cbeb4cbd4f471b8d5f41b90bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 30/42] fix: spectral results were labelled as the peaks above
 the threshold

---
 src/coinflip/_randtests/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/fourier.py b/src/coinflip/_randtests/fourier.py
index a187949..13fc4af 100644
--- a/src/coinflip/_randtests/fourier.py
+++ b/src/coinflip/_randtests/fourier.py
@@ -96,7 +96,7 @@ class SpectralTestResult(TestResult):
         yield self._pretty_result("normalised diff")
 
         yield make_testvars_list(
-            "npeaks above threshold",
+            "npeaks below threshold",
             ("actual", self.nbelow),
             ("expected", self.nbelow_expect),
             ("diff", self.diff),
-- 
2.43.0


From bd3fa06f767d7ca4597d3d0ddcc444f94d74dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 31/42] fix: reference distributions were plotted with wrong
 degrees of freedom

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/_randtests/entropy.py    | 2 +-
 src/coinflip/_randtests/matrix.py     | 2 +-
 src/coinflip/_randtests/runs.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 05842cb..dfb8684 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -154,7 +154,7 @@ class LinearComplexityTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.variance_bins))
+        return plot_chi2_dist(self.statistic, len(self.variance_bins) - 1)
 
 
 def berlekamp_massey(sequence: Sequence[Literal[0, 1]]) -> int:
diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 94cb15b..c22d531 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -126,4 +126,4 @@ class ApproximateEntropyTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, 2 ** (self.blocksize - 1))
+        return plot_chi2_dist(self.statistic, 2 ** self.blocksize)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index bf0011c..6e58aef 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -185,7 +185,7 @@ class BinaryMatrixRankTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)))
+        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)) - 1)
 
 
 def matrix_rank(matrix: Iterable[Iterable[Literal[0, 1]]]) -> Integer:
diff --git a/src/coinflip/_randtests/runs.py b/src/coinflip/_randtests/runs.py
index 47190cd..42272ec 100644
--- a/src/coinflip/_randtests/runs.py
+++ b/src/coinflip/_randtests/runs.py
@@ -255,7 +255,7 @@ class LongestRunsTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.maxlen_bins))
+        return plot_chi2_dist(self.statistic, len(self.maxlen_bins) - 1)
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From e1f3db816fdf161dbc01a4d5a1a9919b3fbecb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 32/42] fix: report did not escape the values of the sequence

---
 src/coinflip/templates/randtests/monobit.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/templates/randtests/monobit.html b/src/coinflip/templates/randtests/monobit.html
index 74e8050..7f0ac70 100644
--- a/src/coinflip/templates/randtests/monobit.html
+++ b/src/coinflip/templates/randtests/monobit.html
@@ -1,6 +1,6 @@
 <h2>Frequency (Monobit) Test</h2>
 
-<p>The number of occurences for the {{ result.counts.max.value }} and {{ result.counts.min.value }} values are found and the difference is calculated.</p>
+<p>The number of occurences for the {{ result.counts.max.value | e }} and {{ result.counts.min.value | e }} values are found and the difference is calculated.</p>
 
 <div id="viz-monobit-counts"></div>
 
@@ -15,9 +15,9 @@
 <p>Finding the cumulative likelihood a true RNG would have such a difference or greater comes to a p-value of {{ result.p | round(3) }}. The lower the p-value, the less confident we can say that this data is random.</p>
 
 <script type="text/javascript">
- var counts = {{ result.plot_counts().to_json() }}
+ var counts = {{ result.plot_counts().to_json() | replace("</", "<\\/") }}
  vegaEmbed("#viz-monobit-counts", counts);
 
- var refdist = {{ result.plot_refdist().to_json() }}
+ var refdist = {{ result.plot_refdist().to_json() | replace("</", "<\\/") }}
  vegaEmbed("#viz-monobit-refdist", refdist);
 </script>
-- 
2.43.0


From 569ce629afa5b92b114a9ecad8ee9f5d09f482b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 33/42] fix: encoding of reports depended on the locale

---
 src/coinflip/cli/report.py        | 2 +-
 src/coinflip/templates/index.html | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index f53d325..e8fd150 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -51,6 +51,6 @@ def write_report_doc(report: Report, out: Path):
         except TemplateNotFound:
             print_warning(f"{template_file} not found")
 
-    with open(out, "w") as f:
+    with open(out, "w", encoding="utf-8") as f:
         report_html = doc.render(result_markups=result_markups)
         f.write(report_html)
diff --git a/src/coinflip/templates/index.html b/src/coinflip/templates/index.html
index d632bc8..6632476 100644
--- a/src/coinflip/templates/index.html
+++ b/src/coinflip/templates/index.html
@@ -1,6 +1,7 @@
 <!DOCTYPE html>
 <html>
     <head>
+        <meta charset="utf-8">
         <title>Report</title>
         <script src="https://cdn.jsdelivr.net/npm/vega@5"></script>
         <script src="https://cdn.jsdelivr.net/npm/vega-lite@4"></script>
-- 
2.43.0


From 5e0b7f93e3e93c51f753a985cb1408c79c33d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 34/42] fix: decimal numbers in text data were not read exactly

Pandas' default parser is off by a unit in the last place for about a
quarter of all doubles, so e.g. 0.3 and 0.30000000000000004 were read as
the same value.
---
 src/coinflip/cli/parsing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 8bfde29..36555b7 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -50,7 +50,9 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    df = pd.read_csv(data_file, header=None, low_memory=False)
+    df = pd.read_csv(
+        data_file, header=None, low_memory=False, float_precision="round_trip"
+    )
 
     ncols = len(df.columns)
     if ncols > 1:
-- 
2.43.0


From 55229ff334469a89594e09a0b5c063ee31079aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 35/42] fix: run_test() raised KeyError for names of modules

Such names, e.g. "frequency", are attributes of the package, but not
statistical tests, so should raise TestNotFoundError as documented.
---
 src/coinflip/cli/runner.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 287ce41..0785b20 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -154,10 +154,9 @@ def run_test(series: pd.Series, randtest_name, **kwargs) -> TestResult:
     TestError
         Errors raised when running ``randtest_name``
     """
-    try:
-        func = getattr(_randtests, randtest_name)
-    except AttributeError as e:
-        raise TestNotFoundError() from e
+    if randtest_name not in _randtests.__all__:
+        raise TestNotFoundError()
+    func = getattr(_randtests, randtest_name)
 
     with Progress(*columns, console=console, transient=True) as progress:
         abbrv = f_randtest_abbreviations[randtest_name]
-- 
2.43.0


From 2821899dc31f11c202eb700665d1c35e96601600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 36/42] fix: output which cannot encode all characters made
 commands fail

The tests which had run until then, and with them the results, were lost when
e.g. the output was redirected in an environment which does not use UTF-8.
---
 src/coinflip/cli/commands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 0a4fe26..eea4803 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -1,3 +1,4 @@
+import sys
 import webbrowser
 from datetime import datetime
 from pathlib import Path
@@ -39,6 +40,9 @@ def main():
     Informational web documents explaining the test results can be produced via
     the report command.
     """
+    # output which cannot encode a character should not stop us from running
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="replace")
 
 
 @main.command()
-- 
2.43.0


From bd1fbc686c7ddaf722c00c397a17af3acf31e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 37/42] fix: progress of the serial test did not add up

---
 src/coinflip/_randtests/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 7622287..3f8082e 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -29,7 +29,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
     if not blocksize:
         blocksize = max(floor(log2(n)) - 2 - 1, 2)
 
-    set_task_total(ctx, (1 + n) * 3 + 2)
+    set_task_total(ctx, (1 + n) * min(blocksize, 3) + 2)
 
     failures = check_recommendations(
         ctx, {"blocksize < ⌊log2(n) - 2⌋": blocksize < floor(log2(n)) - 2}
-- 
2.43.0


From ac8879512d589cc1706a473fbc24f07f9409d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 38/42] fix: progress of the random excursions variant test
 went beyond its end

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 0b5c560..e97ff70 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -249,7 +249,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 4)
+    set_task_total(ctx, len(variant_states) + 4)
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-- 
2.43.0


From 2a6c0db42736d1a5a4c74defd5ce1c4e537ec177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 39/42] fix: comparing results of the cusum test raised
 ValueError

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index e97ff70..d5589b6 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -79,7 +79,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
         p,
         reverse,
         n,
-        walk,
+        list(walk),
     )
 
 
-- 
2.43.0


From 2179c620dfecd3d89711a9f0c7fc39e8001a12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 40/42] fix: serial and approximate entropy tests failed for
 patterns of more than 64 bits

---
 src/coinflip/_randtests/entropy.py | 2 +-
 src/coinflip/_randtests/serial.py  | 4 ++--
 src/coinflip/randtests_refimpl.py  | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index c22d531..bb3256b 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -66,7 +66,7 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
     # cannot be negative, but rounding errors can make it out as such
     chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
-    p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
+    p = gammaincc(2.0 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 3f8082e..5a89f7b 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -66,7 +66,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
     # neither delta can be negative, but rounding errors can make them out as such
     normsum_delta1 = normalised_sums[blocksize] - normalised_sums[blocksize - 1]
     normsum_delta1 = max(normsum_delta1, 0.0)
-    p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
+    p1 = gammaincc(2.0 ** (blocksize - 2), normsum_delta1 / 2)
 
     normsum_delta2 = (
         normalised_sums[blocksize]
@@ -74,7 +74,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
         + normalised_sums[blocksize - 2]
     )
     normsum_delta2 = max(normsum_delta2, 0.0)
-    p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
+    p2 = gammaincc(2.0 ** (blocksize - 3), normsum_delta2 / 2)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index f7246f9..9a2444c 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -334,8 +334,8 @@ def serial(sequence: List[Literal[0, 1]], blocksize: int):
     normsum_deltas = [max(delta, 0.0) for delta in normsum_deltas]
 
     pvalues = [
-        gammaincc(2 ** (blocksize - 2), normsum_deltas[0] / 2),
-        gammaincc(2 ** (blocksize - 3), normsum_deltas[1] / 2),
+        gammaincc(2.0 ** (blocksize - 2), normsum_deltas[0] / 2),
+        gammaincc(2.0 ** (blocksize - 3), normsum_deltas[1] / 2),
     ]
 
     return normsum_deltas, pvalues
@@ -387,7 +387,7 @@ def approximate_entropy(sequence: List[Literal[0, 1]], blocksize: int):
 
     approx_entropy = phis[0] - phis[1]
     chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
-    p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
+    p = gammaincc(2.0 ** (blocksize - 1), chi2 / 2)
 
     return chi2, p
 
-- 
2.43.0


From 4629ce7d2fda8ca9798dc78f578eee9289b1c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 41/42] fix: tests failed for tuples of different lengths

---
 src/coinflip/_randtests/complexity.py  | 2 +-
 src/coinflip/_randtests/fourier.py     | 2 +-
 src/coinflip/_randtests/matrix.py      | 2 +-
 src/coinflip/_randtests/random_walk.py | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index dfb8684..cb2644b 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -63,7 +63,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
         },
     )
 
-    binary = series.map({heads: 1, tails: 0})
+    binary = series.map({heads: 1, tails: 0}.get)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/fourier.py b/src/coinflip/_randtests/fourier.py
index 13fc4af..404239a 100644
--- a/src/coinflip/_randtests/fourier.py
+++ b/src/coinflip/_randtests/fourier.py
@@ -49,7 +49,7 @@ def spectral(series, heads, tails, ctx):
 
     advance_task(ctx)
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = series.map({heads: 1, tails: -1}.get)
     fourier = pd.Series(fft(oscillations))  # fft returns a ndarray
 
     advance_task(ctx)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index 6e58aef..0841352 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -69,7 +69,7 @@ def binary_matrix_rank(
         full=0.2888 * nblocks,
     )
 
-    rankable_series = series.map({heads: 1, tails: 0})
+    rankable_series = series.map({heads: 1, tails: 0}.get)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index d5589b6..1c99d5c 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -35,7 +35,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
 
     failures = check_recommendations(ctx, {"n ≥ 100": n >= 100})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = series.map({heads: 1, tails: -1}.get)
     if reverse:
         oscillations = oscillations[::-1]
     cumulative_sums = oscillations.cumsum()
@@ -140,7 +140,7 @@ def random_excursions(series, heads, tails, ctx):
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = series.map({heads: 1, tails: -1}.get)
     cumulative_sums = oscillations.cumsum()
 
     advance_task(ctx)
@@ -253,7 +253,7 @@ def random_excursions_variant(series, heads, tails, ctx):
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = series.map({heads: 1, tails: -1}.get)
     cumulative_sums = oscillations.cumsum()
 
     advance_task(ctx)
-- 
2.43.0


From 629f37362a4cce737b82044c38fb734fdebe3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:07 +0000
Subject: [PATCH 42/42] fix: bins failed or misbehaved after others with equal
 numbers of another type

The cache of closest intervals is shared by all bins and compares their
intervals and keys, which some types of numbers cannot be (a Decimal and
a numpy integer raise an error).
---
 src/coinflip/_randtests/common/collections.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 76f0577..4eec8c9 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -4,7 +4,6 @@ from collections import defaultdict
 from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
-from functools import lru_cache
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -97,7 +96,6 @@ class Bins(MutableMapping):
         return f"Bins({repr(self)})"
 
     @staticmethod
-    @lru_cache()
     def find_closest_interval(intervals: Tuple[Real], key: Real):
         minkey = intervals[0]
         midkeys = intervals[1:-1]
-- 
2.43.0

