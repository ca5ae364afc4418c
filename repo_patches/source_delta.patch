From 0932c9f8fa202969175bf028b87b5e06cae0fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 1/7] fix: accept the documented trailing comma in custom dice
 sides

---
 python_dice/src/expression/dice_expression_helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..bd28f60 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -34,7 +34,10 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
         value_dictionary = {-1: 1, 0: 1, 1: 1}
     else:
         value_dictionary = {}
-        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+        side_values = re.sub(r"(\[|\]|\s+)", "", dice_type_string)
+        if side_values.endswith(","):
+            side_values = side_values[:-1]
+        for value in re.split(r",", side_values):
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From e9a4fc083be64f2a5ac4719334f0f0c63aee0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 2/7] fix: the distribution of zero dice is always 0, as rolled

---
 python_dice/src/expression/dice_expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..5e94e0f 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -56,6 +56,8 @@ class DiceExpression(IDiceExpression):
         return f"{self._string_form}"
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
+        if self._number_of_dice == 0:
+            return self._probability_distribution_factory.create({0: 1})
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-- 
2.43.0


From 10aca328f3e0b5652a4469789dbb74bbe72ab7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 3/7] fix: a side with a zero multiplier is not on the dice,
 reject dice without sides

---
 python_dice/src/expression/dice_expression_helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index bd28f60..aa61c1b 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -45,6 +45,10 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
+            if int(multiplier) == 0:
+                continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
+    if not value_dictionary:
+        raise ValueError(f"dice must have at least one side, got {dice_type_string}")
     return value_dictionary
-- 
2.43.0


From 6ceb79b7744f691722303a5850f58c172e1a56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:44 +0000
Subject: [PATCH 4/7] fix: rolling NOT treats only values above 0 as true

---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 5888af8b82085bad7ce9ff6e05bb92fb772a8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:02 +0000
Subject: [PATCH 5/7] fix: rolling OR treats only values above 0 as true

---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..f3e178c 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def _or(this: object, other: object):
+        if isinstance(this, int) and isinstance(other, int):
+            return this > 0 or other > 0
+        return operator.or_(this, other)
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression._or(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From 217b4c6fb0f2af80da1ce89d526661aadb1a134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:02 +0000
Subject: [PATCH 6/7] fix: interpreter results no longer share or write to the
 interpreter state

---
 python_dice/src/python_dice_interpreter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python_dice/src/python_dice_interpreter.py b/python_dice/src/python_dice_interpreter.py
index cdef5d0..89da530 100644
--- a/python_dice/src/python_dice_interpreter.py
+++ b/python_dice/src/python_dice_interpreter.py
@@ -46,7 +46,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.roll()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -55,7 +55,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.max()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -64,7 +64,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.min()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -73,7 +73,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.get_dict_form() for key, value in return_dict.items()}
 
@@ -82,7 +82,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: return_dict[key] for key in return_dict.keys()}
 
@@ -91,7 +91,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.average() for key, value in return_dict.items()}
 
-- 
2.43.0


From 3b51540158278455163f0edb8bbcbff62724ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:02 +0000
Subject: [PATCH 7/7] fix: close the figure of each drawn histogram or plot

---
 .../probability_distribution/probability_distribution.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..9b51a32 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -136,7 +136,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -152,6 +152,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
             )
         buffer = io.BytesIO()
         pyplot.savefig(buffer, format="tiff")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -167,7 +168,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -176,6 +177,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.legend()
         buffer = io.BytesIO()
         pyplot.savefig(buffer, format="png")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0

