From 93c0bed8a11dee29099254738affb9d5f1a13037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 01/24] fix: fitness no longer removes 'optimize' from the
 caller's conditions list

BinaryGA.optimize() called twice on one constrained problem failed, because the
first call had emptied the list the caller passed in.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From a4f1aa2f149ede98d21a9ceadd472f03788eb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 02/24] fix: pass falsy input_data (0, [], arrays) to the
 objective function

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
-- 
2.43.0


From 6553a4fddd31b3992a737832896d79d0597e9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 03/24] fix: accept an objective function that returns a
 one-element sequence

---
 baumeva/ga/fitness/base_fitness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index acffe2c..4352822 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -110,6 +110,7 @@ class BaseFitness(ABC):
                                     f' optimization must be equal 1')
             except TypeError:
                 return values
+            return values[0]
 
     def calc_obj_func(self, genotype: List[Union[int, float]]) -> Union[int, float, list]:
         """
-- 
2.43.0


From d69feaa73b9cbb70a8135c7ea83bc86f0564687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 04/24] fix: keep the declared order of objectives in
 constrained multi-objective scores

Objectives were popped from last to first and appended, so obj_score was reversed
and compared with the wrong obj_value.
---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..eafaafe 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From c853d5f743a6bda50110440251ca474d40721e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 05/24] fix: Pareto ranking passes input_data to the objective
 function

---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index eafaafe..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
-- 
2.43.0


From f1027964bd7f6f06172194fe29ec9e8c7c019d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 06/24] fix: VEGA counts objectives at a point of the search
 space and with input_data

It called the objective at all zeros, which may lie outside the declared ranges
(division by zero, log of zero), and without input_data.
---
 baumeva/vega.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..0c2863c 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,12 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is None:
+            probe = [gen[0] for gen in self.gens]
+            num_objectives = len(self.obj_function(probe) if self.input_data is None
+                                 else self.obj_function(self.input_data, probe))
+        else:
+            num_objectives = self.conditions.count('optimize')
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From 9e4a8c04e13d282e0cd780d6157734c633f7fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 07/24] fix: VEGA honours tournament_size

---
 baumeva/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 0c2863c..572aabd 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -87,7 +87,7 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives, tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 5b15605d20a91e01eb0ae139c52ceb5eb93e2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 08/24] fix: VEGA balanced and ranked selection keep the
 parents of every objective

The list of parents was reset for each objective, so only the last objective was
ever selected for.
---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4c1970c 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,3 +1,4 @@
+from .base_selection import BaseSelection
 from .balanced_selection import BalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 207ae4a93c1d484011f453139f4f69e9c7351b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 09/24] fix: balanced selection with non-positive scores and
 with one dominant score

When minimizing (obj_value=None) scores are negative, and dividing by their sum
made the worst individual the most likely parent (or divided by zero). When one
score dwarfed the rest, drawing a second, different parent never ended.
---
 baumeva/ga/selections/balanced_selection.py   | 47 +++++++++++--------
 .../ga/selections/vega_balanced_selection.py  |  8 +---
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..207d999 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,4 +1,4 @@
-from random import random
+from random import choices
 from copy import deepcopy
 from .base_selection import BaseSelection
 from baumeva.ga import GaData
@@ -37,23 +37,36 @@ class BalancedSelection(BaseSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)
-        proportional = 0
+        self.selection_scores = self.get_weights([ind[self.score_type] for ind in ga_data.population])
 
-        for ind in ga_data.population:
-            proportional += ind[self.score_type] / sum_scores
-            self.selection_scores.append(proportional)
+    @staticmethod
+    def get_weights(scores: list) -> list:
+        """
+        Get selection weights: the scores themselves if all of them are positive. Otherwise (minimization, where
+        scores are negated objective values) the scores are shifted above zero, a better score has a bigger weight.
 
-    def get_index(self):
+        :param scores: scores of the individuals.
+        :return: list of positive weights.
         """
-        Get the index of a selected individual using proportional selection.
+        lowest = min(scores)
+        if lowest > 0:
+            return scores
+        margin = (max(scores) - lowest) / len(scores) or 1
+        return [score - lowest + margin for score in scores]
 
-        :return: The index of the selected individual.
+    def get_pair(self) -> list:
         """
-        rand_value = random()
-        idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        Get the indexes of two different individuals using proportional selection.
+
+        :return: The indexes of the selected individuals.
+        """
+        idxs = range(len(self.selection_scores))
+        first = choices(idxs, self.selection_scores)[0]
+        rest = self.selection_scores.copy()
+        rest[first] = 0
+        if sum(rest) == 0:
+            rest = [int(idx != first) for idx in idxs]
+        return [first, choices(idxs, rest)[0]]
 
     def balanced_selection(self, ga_data: GaData):
         """
@@ -65,13 +78,7 @@ class BalancedSelection(BaseSelection):
         total_num_parents = self.get_total_num_parents(ga_data)
 
         for _ in range(total_num_parents):
-            idxs = []
-            while len(idxs) < 2:
-                idx = self.get_index()
-                if len(idxs) == 0 or idx != idxs[-1]:
-                    idxs.append(idx)
-
-            ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)
+            ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in self.get_pair())
 
     def execute(self, ga_data: GaData) -> None:
         """
diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 4c1970c..8745e1f 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -37,13 +37,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
-        self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type][self.idx] for ind in ga_data.population)
-        proportional = 0
-
-        for ind in ga_data.population:
-            proportional += ind[self.score_type][self.idx] / sum_scores
-            self.selection_scores.append(proportional)
+        self.selection_scores = self.get_weights([ind[self.score_type][self.idx] for ind in ga_data.population])
 
     def execute(self, ga_data: MultiGaData) -> None:
         """
-- 
2.43.0


From 4ec2acd7a7d61882ed9d454e89aa4e6a5258360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:53 +0000
Subject: [PATCH 10/24] fix: ranked selection ranks by score and leaves the
 Pareto rank alone

Ranks were taken from the position in the population, which multi-objective runs
sort best first or by Pareto rank, so selection pressure was inverted (FFGA) or
unrelated to the objective (VEGA); the Pareto rank that elitism relies on was
overwritten; and a lowest score of exactly -1 was miscounted as a tie.
---
 baumeva/ga/selections/ranked_selection.py     | 37 ++++++++++---------
 .../ga/selections/vega_ranked_selection.py    | 23 +-----------
 2 files changed, 21 insertions(+), 39 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..e45a7d6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -8,8 +8,6 @@ class RankedSelection(BalancedSelection):
     Inherits from BalancedSelection.
     """
 
-    score_type = 'rank'
-
     def __init__(self):
         """
         Initialize the RankedSelection instance.
@@ -25,22 +23,25 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
-        count = 1
-        for idx in range(len(ga_data.population)):
-            rank = idx + 1
-            ga_data.population[idx]['rank'] = rank
-            if ga_data.population[idx]['score'] == prev_score:
-                count += 1
-                if rank == len(ga_data.population):
-                    for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'] = (sum(range(rank - count, rank)) + count) / count
-            elif count > 1:
-                for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'] = (sum(range(idx - count, idx)) + count) / count
-                count = 1
-            prev_score = ga_data.population[idx]['score']
-        super().add_probabilities(ga_data)
+        self.selection_scores = self.get_ranks([ind['score'] for ind in ga_data.population])
+
+    @staticmethod
+    def get_ranks(scores: list) -> list:
+        """
+        Get ranks of scores: 1 for the lowest score, equal scores have the mean of the ranks they occupy.
+
+        :param scores: scores of the individuals.
+        :return: list of ranks.
+        """
+        order = sorted(range(len(scores)), key=scores.__getitem__)
+        ranks = [0] * len(scores)
+        start = 0
+        for end in range(1, len(order) + 1):
+            if end == len(order) or scores[order[end]] != scores[order[start]]:
+                for idx in order[start:end]:
+                    ranks[idx] = (start + 1 + end) / 2
+                start = end
+        return ranks
 
     def execute(self, ga_data: GaData) -> None:
         """
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..7f0ae56 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -1,3 +1,4 @@
+from .ranked_selection import RankedSelection
 from .vega_balanced_selection import VEGABalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -8,8 +9,6 @@ class VEGARankedSelection(VEGABalancedSelection):
     Inherits from VEGABalancedSelection.
     """
 
-    score_type = 'rank'
-
     def __init__(self, num_objectives: int):
         """
         Initializes the VEGARankedSelection instance.
@@ -25,22 +24,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
-        count = 1
-        for idx in range(len(ga_data.population)):
-            rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
-                count += 1
-                if rank == len(ga_data.population):
-                    for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
-            elif count > 1:
-                for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
-                count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
-        super().add_probabilities(ga_data)
+        self.selection_scores = RankedSelection.get_ranks([ind['score'][self.idx] for ind in ga_data.population])
 
     def execute(self, ga_data: MultiGaData) -> None:
         """
@@ -49,7 +33,4 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        for ind in ga_data.population:
-            ind['rank'] = [0]*self.num_objectives
-
         super().execute(ga_data)
-- 
2.43.0


From c02b49342f37331dd47d70500ae787db4093508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:53 +0000
Subject: [PATCH 11/24] fix: CategoricalMutation accepts 'weak', 'normal' and
 'strong'

The default level raised AttributeError (there is no mutation_map), so CategoricalGA
could not be run with its default arguments.
---
 baumeva/ga/mutations/categorical_mutation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..71835b2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -91,5 +91,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From e923bfe9b29b2a7aa6298cc045e01c6e960f3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:53 +0000
Subject: [PATCH 12/24] fix: a mutation level of 0.0 never mutates

randint(0, 999) <= level * 1000 is true for 0 at level 0.0, and adds 0.001 to every
level.
---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 71835b2..464caf2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 3403d1249ca5f81286ddbe193c15252802e4f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:53 +0000
Subject: [PATCH 13/24] fix: a named mutation level follows the length of the
 current problem

The first run replaced 'weak', 'normal' or 'strong' by a number, which then applied
to every later problem the same mutation object was used for.
---
 baumeva/ga/mutations/bin_string_mutation.py  | 10 ++++++----
 baumeva/ga/mutations/categorical_mutation.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..c3ecb14 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -44,11 +44,13 @@ class BinStringMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +58,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 464caf2..9483075 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -44,11 +44,13 @@ class CategoricalMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +58,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 6449fe665fe5a860fd58c44298e15debc1de2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 14/24] fix: StaticPenalty penalizes violated conditions

The test for a satisfied equality was inverted, inequalities used the coefficients
of equalities, and any value outside the first interval raised an exception.
---
 baumeva/ga/penalties/static_penalty.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..c945c7b 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,23 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
+                if values[i] == 0:
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] < abs(values[i]) <= val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
-                    res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                    if val[0] < values[i] <= val[1]:
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From f73d9fee06306404a12e803227f2eb602340852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 15/24] fix: binary genes are never coarser than the requested
 step

int() rounded the number of steps down, also when the division was inexact only by
floating point error: (0.4, 0.6, 0.1) got a step of 0.2, and a range of one step
divided by zero.
---
 baumeva/ga/populations/binary_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..33c0fab 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -1,4 +1,5 @@
 from typing import List, Tuple
+from math import ceil
 from random import randint
 from .base_population import BasePopulation
 
@@ -55,7 +56,7 @@ class BinaryPopulation(BasePopulation):
         """
         for gen in self.gens:
             gen_range = abs(gen[1] - gen[0])
-            num_points = int(gen_range / gen[2])
+            num_points = max(1, ceil(gen_range / gen[2] - 1e-9))
             num_bits, real_num_points = self.get_real_number_of_points(num_points)
             self.real_step.append(gen_range / (2 ** num_bits - 1))
             self.num_bits.append(num_bits)
-- 
2.43.0


From 83fb7b37ea6143c11f7b5a6b71712572f5d857ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 16/24] fix: decoded binary genes never exceed the upper bound

lo + n * step could exceed the bound by floating point error, so the objective was
called outside its range and the value was refused as an input individual.
---
 baumeva/ga/populations/binary_gray_population.py | 2 +-
 baumeva/ga/populations/binary_population.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..a447564 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -45,7 +45,7 @@ class BinaryGrayPopulation(BinaryPopulation):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             index_point = self.get_index_from_gray(index_point)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, self.gens[gen_idx][1]))
         return phenotype
 
     @staticmethod
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 33c0fab..ec286ad 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -115,7 +115,7 @@ class BinaryPopulation(BasePopulation):
         for gen_idx, gen_item in enumerate(self.gens):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, self.gens[gen_idx][1]))
         return phenotype
 
     def get_phenotype(self):
-- 
2.43.0


From c242b2fdb8189df397425917ae448abd1e68ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 17/24] fix: seed the random generator once per run, not in
 every generation

Every selection and crossover created an empty population, which seeded the global
generator again: with rnd_seed set, all generations drew the same tournaments, cut
points and mutations.
---
 baumeva/ga/populations/base_population.py        | 11 +++++++++--
 baumeva/ga/populations/binary_gray_population.py |  2 +-
 baumeva/ga/populations/binary_population.py      |  2 +-
 baumeva/ga/populations/cat_population.py         |  2 +-
 baumeva/ga/populations/order_cat_population.py   |  2 +-
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/populations/base_population.py b/baumeva/ga/populations/base_population.py
index 4e7c408..791b363 100644
--- a/baumeva/ga/populations/base_population.py
+++ b/baumeva/ga/populations/base_population.py
@@ -15,10 +15,17 @@ class BasePopulation(ABC, list):
     input_population: List[list] = None
     rnd_seed: Optional[int] = None
 
-    def __init__(self) -> None:
+    def __init__(self, is_seed: bool = True) -> None:
+        """
+        Initialize the BasePopulation instance.
+
+        :param is_seed: whether to seed the random generator, False for parents and children of a running algorithm.
+        :return: None
+        """
         super().__init__()
         self.rnd_seed = generator.rnd_seed
-        seed(self.rnd_seed)
+        if is_seed:
+            seed(self.rnd_seed)
 
     @abstractmethod
     def set_params(self, num_individ: int, gens: tuple, input_population: List[list] = None) -> None:
diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index a447564..ce30d85 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -55,4 +55,4 @@ class BinaryGrayPopulation(BinaryPopulation):
 
         :return: An empty instance of BinaryGrayPopulation.
         """
-        return BinaryGrayPopulation()
+        return BinaryGrayPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index ec286ad..17808bc 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -164,7 +164,7 @@ class BinaryPopulation(BasePopulation):
 
         :return: An empty instance of BinaryPopulation.
         """
-        new_population = BinaryPopulation()
+        new_population = BinaryPopulation(is_seed=False)
         new_population.is_phenotype = True
 
         return new_population
diff --git a/baumeva/ga/populations/cat_population.py b/baumeva/ga/populations/cat_population.py
index 2278b62..c017af1 100644
--- a/baumeva/ga/populations/cat_population.py
+++ b/baumeva/ga/populations/cat_population.py
@@ -68,4 +68,4 @@ class CatPopulation(BasePopulation):
 
         :return: An empty instance of CatPopulation.
         """
-        return CatPopulation()
+        return CatPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/order_cat_population.py b/baumeva/ga/populations/order_cat_population.py
index 49bbd6e..fd0808f 100644
--- a/baumeva/ga/populations/order_cat_population.py
+++ b/baumeva/ga/populations/order_cat_population.py
@@ -27,4 +27,4 @@ class OrderCatPopulation(CatPopulation):
 
         :return: An empty instance of OrderCatPopulation.
         """
-        return OrderCatPopulation()
+        return OrderCatPopulation(is_seed=False)
-- 
2.43.0


From 976202c404e1bb18e042eca04d6032c751f4ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 18/24] fix: FFGA fitness follows the current rank of
 individuals kept from earlier generations

---
 baumeva/ga/fitness/ffga_fitness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..b104fbc 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,5 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From e867d76a8536a5346ca0b2a7652318f43809fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 19/24] fix: multi-objective history records copies of the
 Pareto sets

It stored the live individuals, whose rank and index change in later generations.
---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From 86a3e4ef2de61edfad785e5bb0bdc1969869d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 20/24] fix: AdaptivePenalty works in multi-objective
 optimization

It needs the feasibility of the best solution, which MultiGaData did not record
(KeyError in the second generation).
---
 baumeva/ga/multi_ga_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index d66ce28..fb4bd98 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -60,6 +60,7 @@ class MultiGaData(GaData):
         else:
             self.num_generation_no_improve += 1
 
+        self.best_solution['feasible'] = any(individ['feasible'] for individ in pareto_set)
         self.idx_generation += 1
 
     @staticmethod
-- 
2.43.0


From 2a39e3249f15ee239d27e34f806132923e4e3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 21/24] fix: FFGA with transfer_parents='random' and fewer than
 11 individuals

---
 baumeva/ga/multi_new_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index e04d2b9..423c70a 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -39,7 +39,7 @@ class MultiNewGeneration(NewGeneration):
         # if not ga_data.population.is_sorted:
         #     ga_data.population.sort_by_dict('rank')
 
-        self.add_parents(ga_data, num_elites=10)
+        self.add_parents(ga_data, num_elites=min(10, len(ga_data.population) - 1))
 
         ga_data.population = ga_data.children
         ga_data.population.is_sorted = False
-- 
2.43.0


From f695acf551f0a36031e3970c8ac3917179cccc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:48 +0000
Subject: [PATCH 22/24] fix: crossovers and shift mutation on genotypes of one
 or two genes

A one-bit binary problem or a two-point route (gens=(0, 9, 2)) raised ValueError.
---
 baumeva/ga/crossovers/one_point_crossover.py | 2 +-
 baumeva/ga/crossovers/order_crossover.py     | 3 ++-
 baumeva/ga/crossovers/two_point_crossover.py | 3 ++-
 baumeva/ga/mutations/shift_mutation.py       | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/crossovers/one_point_crossover.py b/baumeva/ga/crossovers/one_point_crossover.py
index bc0460b..fbb51c4 100644
--- a/baumeva/ga/crossovers/one_point_crossover.py
+++ b/baumeva/ga/crossovers/one_point_crossover.py
@@ -18,7 +18,7 @@ class OnePointCrossover(BaseCrossover):
         self.len_individ = None
 
     def crossover(self, parent_1: list, parent_2: list, child_1: dict, child_2: dict) -> tuple:
-        idx_point = randint(1, self.len_individ - 1)
+        idx_point = randint(1, max(1, self.len_individ - 1))
         child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:]
         child_2['genotype'] = parent_2[:idx_point] + parent_1[idx_point:]
         return child_1, child_2
diff --git a/baumeva/ga/crossovers/order_crossover.py b/baumeva/ga/crossovers/order_crossover.py
index f9e794b..ee3275b 100644
--- a/baumeva/ga/crossovers/order_crossover.py
+++ b/baumeva/ga/crossovers/order_crossover.py
@@ -23,7 +23,8 @@ class OrderCrossover(BaseCrossover):
 
         :return: A list containing the indices of the crossover segment.
         """
-        idx_segment = sample(range(1, self.len_individ), 2)
+        points = range(1, self.len_individ) if self.len_individ > 2 else range(self.len_individ + 1)
+        idx_segment = sample(points, 2)
         idx_segment.sort()
         return idx_segment
 
diff --git a/baumeva/ga/crossovers/two_point_crossover.py b/baumeva/ga/crossovers/two_point_crossover.py
index 7bf40ef..9ee1b96 100644
--- a/baumeva/ga/crossovers/two_point_crossover.py
+++ b/baumeva/ga/crossovers/two_point_crossover.py
@@ -18,7 +18,8 @@ class TwoPointCrossover(BaseCrossover):
         self.len_individ = None
 
     def crossover(self, parent_1: list, parent_2: list, child_1: dict, child_2: dict) -> tuple:
-        idx_segment = sample(range(1, self.len_individ), 2)
+        points = range(1, self.len_individ) if self.len_individ > 2 else range(self.len_individ + 1)
+        idx_segment = sample(points, 2)
         idx_segment.sort()
         child_1['genotype'] = parent_1[:idx_segment[0]] + parent_2[idx_segment[0]:idx_segment[1]] + parent_1[
                                                                                                     idx_segment[1]:]
diff --git a/baumeva/ga/mutations/shift_mutation.py b/baumeva/ga/mutations/shift_mutation.py
index aeb0975..8206ac5 100644
--- a/baumeva/ga/mutations/shift_mutation.py
+++ b/baumeva/ga/mutations/shift_mutation.py
@@ -16,7 +16,7 @@ class ShiftMutation(BaseCombinatoryMutation):
         :return: The mutated child individual.
         """
 
-        chain_length = randint(1, len(child['genotype']) - 2)
+        chain_length = randint(1, max(1, len(child['genotype']) - 2))
         s_idx = randint(0, len(child['genotype']) - chain_length)
         e_idx = s_idx + chain_length
 
-- 
2.43.0


From 7c85db005218c18ea7ab7873022706a428028e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 23/24] fix: an elite is not copied into the new generation
 twice

Replacing a duplicate elite drew from the whole population, so an individual that was
already kept could be added again (the same object). With a small population every
tournament then had the same winner and tournament selection never ended.
---
 baumeva/ga/new_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..642f52b 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -52,7 +52,8 @@ class NewGeneration:
 
                 z_counter += 1
                 if -num_elites - 1 - z_counter < 0:
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                    others = [ind for ind in ga_data.population if all(ind is not elite for elite in elites)]
+                    elites[0:0] = sample(others, num_elites + 1 - len(elites))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From 68e0bbfa30b4c7b858cf901a912c03cea2636842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:39 +0000
Subject: [PATCH 24/24] fix: tournament selection ends when the population is
 not larger than the tournament

A FFGA population (children and the front) can shrink to the tournament size or below; a
tournament of the whole population always has the same winner, so no second parent was
ever found.
---
 baumeva/ga/selections/tournament_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/tournament_selection.py b/baumeva/ga/selections/tournament_selection.py
index d0a66cf..a3aef6e 100644
--- a/baumeva/ga/selections/tournament_selection.py
+++ b/baumeva/ga/selections/tournament_selection.py
@@ -65,10 +65,12 @@ class TournamentSelection(BaseSelection):
         """
         idx_total = list(range(len(ga_data.population)))
         total_num_parents = self.get_total_num_parents(ga_data)
+        # a tournament of the whole population would always have the same winner
+        tournament_size = min(self.tournament_size, len(idx_total) - 1)
         for i in range(total_num_parents):
             parents_pair = []
             while len(parents_pair) < 2:
-                tournament = sample(idx_total, self.tournament_size)
+                tournament = sample(idx_total, tournament_size)
                 best = self.get_best(tournament, ga_data)
                 if len(parents_pair) == 0 or best['idx_individ'] != parents_pair[0]['idx_individ']:
                     parents_pair.append(best)
-- 
2.43.0

