From e16047e9a01e33488f904a079206419f053a7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:30 +0000
Subject: [PATCH 01/55] fix: activation vector file names are reserved
 atomically and collisions are retried

---
 ruleskit/activation.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..51b981e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -305,25 +305,24 @@ class Activation(ABC):
         self.length = len(value)
         self._nones = np.count_nonzero(value == 1)
         t0 = time()
-        arange = list((0, int(1e64)))
-        number = random.randint(*arange)
-        data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        arange = (0, int(1e64))
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                number += 1
-                attempts += 1
-                arange.remove(number)
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
-        data.touch()
+        while True:
+            number = random.randint(*arange)
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+            if not data.is_file():
+                try:
+                    data.touch(exist_ok=False)  # reserves the name : another process could be asking for the same one
+                    break
+                except FileExistsError:
+                    pass
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
         self.data = data
         self.data_format = "file"
         with open(self.data, "wb") as f:
-- 
2.43.0


From b9a9ae13b705eccfd3e07b6967e4244736b01f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:03 +0000
Subject: [PATCH 02/55] fix: a lasy activation vector is read from its own file
 and knows its length

---
 ruleskit/activation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 51b981e..f0b6e50 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -69,7 +69,7 @@ class Activation(ABC):
         self._coverage = None
 
         # Format attributes
-        self.length = None  # Will be set by init methods
+        self._length = None  # Will be set by init methods
         self.data = None  # Will be set by init methods
 
         """
@@ -817,6 +817,8 @@ class Activation(ABC):
                 self._sizeof_raw = value.nbytes / 1e6
             if self._nones is None:
                 self._nones = np.count_nonzero(value == 1)
+            if self._length is None:
+                self._length = len(value)
             stat = path.stat()
             if isinstance(stat, dict):
                 self._sizeof_file = stat["st_size"] / 1e6
@@ -1126,6 +1128,17 @@ class Activation(ABC):
 
     """properties"""
 
+    @property
+    def length(self) -> Optional[int]:
+        """Number of points in the vector. A lasy vector that has not been loaded yet is read to know it."""
+        if self._length is None and self.data_format == "file":
+            self._read(out=False)
+        return self._length
+
+    @length.setter
+    def length(self, value: Optional[int]):
+        self._length = value
+
     @property
     def ones(self) -> np.ndarray:
         """ones is the list of indexes where the vector is 1
@@ -1224,9 +1237,6 @@ class Activation(ABC):
     @property
     def raw(self) -> np.ndarray:
         """Returns the raw np.ndarray. Will set relevant profiling attributes."""
-        if not self.loaded:
-            activation = self._read(out=False)
-            self._init_with_any(activation, length=None, to_file=True)
         if self.data_format == "raw":
             # noinspection PyTypeChecker
             return self.data
-- 
2.43.0


From 937b03a0fb002597f523d36e027357b3e1543ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:10 +0000
Subject: [PATCH 03/55] fix: &, | and ^ of two integer activation vectors keep
 the vectors' length

---
 ruleskit/activation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f0b6e50..9606127 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -573,7 +573,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -633,7 +635,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -694,7 +698,9 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data, optimize=self.optimize and a2.optimize, length=self.length, to_file=False
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 77265437804fa11120c8307415bbc8134b73150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:15 +0000
Subject: [PATCH 04/55] fix: adding activation vectors is their logical OR

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 9606127..6461517 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -727,7 +727,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From 4d9197cf69a14ee0a87d01e64696d1433a50f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:22 +0000
Subject: [PATCH 05/55] fix: activation vectors can be created from bit strings
 and path strings

---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 6461517..b9374e7 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,7 +204,7 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
+        if isinstance(activation, str) and "," not in activation:
             if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From fcf4c565f8cbb77cb8f5ad27f0af311fd2bd33f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:27 +0000
Subject: [PATCH 06/55] fix: activation vectors of length 1 are not stored as
 compressed arrays

---
 ruleskit/activation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index b9374e7..beee6df 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -383,7 +383,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_bitarray:
+            if size_compressed > self._sizeof_bitarray or (self.length == 1 and dtype != str):
+                # Compressed array of a vector of length 1 can not be distinguished from a raw vector of length 2
                 self.data = value
                 self.data_format = "bitarray"
             else:
@@ -442,7 +443,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_integer:
+            if size_compressed > self._sizeof_integer or (self.length == 1 and dtype != str):
+                # Compressed array of a vector of length 1 can not be distinguished from a raw vector of length 2
                 self.data = value
                 self.data_format = "integer"
             else:
@@ -551,7 +553,8 @@ class Activation(ABC):
             thesize = self._sizeof_bitarray
             s = f"Using bitarray activation representation"
             fmt = "bitarray"
-        if thesize > size_compressed:
+        # Compressed array of a vector of length 1 can not be distinguished from a raw vector of length 2
+        if thesize > size_compressed and not (self.length == 1 and dtype != str):
             logger.debug(f"Using compressed activation representation")
             self.data = compressed
             if dtype == str:
-- 
2.43.0


From 2b22c3bfa9f3c83f9d81e16c49b6b91961bd1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:34 +0000
Subject: [PATCH 07/55] fix: an activation vector contains another if all its
 activated points are activated

---
 ruleskit/activation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index beee6df..832fe67 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -768,9 +768,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
-            return False
-        return True
+        return nones_intersection == other.nones
 
     def get_correlation(self, other: "Activation") -> float:
         """Computes the correlation between self and other
-- 
2.43.0


From 69cf70d4c68f5e5070fcc31afb1980f6ca2e446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:38 +0000
Subject: [PATCH 08/55] fix: multi_logical_xor of one vector honours asarray

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 832fe67..4b5ab0f 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -717,6 +717,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From cd80f834dbc397d0588f0919efc132b4bc4cb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:44 +0000
Subject: [PATCH 09/55] fix: converting a compressed vector does not change
 Activation.WILL_COMPARE

---
 ruleskit/activation.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 4b5ab0f..d49bd7e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -933,12 +933,13 @@ class Activation(ABC):
         return act
 
     def _decompress(
-        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True
+        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True, as_int: Optional[bool] = None
     ) -> Union[np.ndarray, bitarray, int]:
         """From a compressed array of either str or np.ndarray format, will return the raw np.ndarray vector of the form
         [0, 1, 1, 1, 0, 0, 1, ...]
 
-        If raw is True (default), returns it as a np.ndarray, else as a bitarray
+        If raw is True (default), returns it as a np.ndarray, else as an integer if as_int is True, or as a bitarray if
+        it is False. If as_int is not specified, uses Activation.WILL_COMPARE.
 
         If out is False or value is None, will set:
             * self._time_compressed_to_raw
@@ -947,7 +948,7 @@ class Activation(ABC):
             * self._nones
             Will iterate :
                 * self._n_compressed_to_raw
-        raw if False and Activation.WILL_COMPARE is True/False:
+        raw if False and as_int is True/False:
             * self._time_compressed_to_integer/bitarray
             * self._sizeof_nteger/bitarray
             Will iterate :
@@ -1034,7 +1035,7 @@ class Activation(ABC):
         if raw:
             act = s
             fmt = "raw"
-        elif Activation.WILL_COMPARE:
+        elif as_int or (as_int is None and Activation.WILL_COMPARE):
             t1 = time()
             act = self._raw_to_integer(s)
             if not out:
@@ -1298,11 +1299,7 @@ class Activation(ABC):
                 self._sizeof_bitarray = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = False
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, as_int=False)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
@@ -1339,11 +1336,7 @@ class Activation(ABC):
             self._sizeof_integer = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = True
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, as_int=True)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
-- 
2.43.0


From bfc700ee6f79a4a91dbcb78f6523f287d7fa0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:05 +0000
Subject: [PATCH 10/55] fix: conditions are compared by their content, not by
 their hash

---
 ruleskit/condition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..fbdf7f7 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,11 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, HyperrectangleCondition):
+            return False
+        if self._features_names is None or other._features_names is None:
+            return self._features_names is other._features_names
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From b7b4d8d310bd51412d3e8fb7d2ca621ba0df5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:10 +0000
Subject: [PATCH 11/55] fix: setting the bounds of a condition keeps decimals
 and updates its impossible flag

---
 ruleskit/condition.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index fbdf7f7..faaadc9 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,24 +317,27 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        self._set_impossible()
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        self._set_impossible()
+
+    def _set_impossible(self):
+        """If a bmin is above its associated bmax, then the rule is impossible."""
+        if self._bmins is None or self._bmaxs is None:
+            self.impossible = False
+        else:
+            self.impossible = any([a > b for a, b in zip(self._bmins, self._bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 9c4c05274527cc22d9718fbd4da99e935475f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:07 +0000
Subject: [PATCH 12/55] fix: classification rules compare probabilities as
 numbers and predict NaN if never activated

---
 ruleskit/rule.py             | 5 ++++-
 ruleskit/utils/rfunctions.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..f28b22c 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -734,7 +734,10 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            if len(self._prediction) == 0:  # The rule was never activated
+                return np.nan
+            # If classes are strings, so are the probabilities
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..170a2a4 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -37,6 +37,8 @@ def class_probabilities(
         y_conditional = np.extract(activation, y)
         count = Counter(y_conditional)
         n = len(y_conditional)
+        if n == 0:
+            return np.empty((0, 2))
         prop = [v / n for v in count.values()]
         proba = np.array([(c, v) for c, v in zip(count.keys(), prop)])
         proba = proba[proba[:, 0].argsort()]
-- 
2.43.0


From 823c84dff2c404a292c773a3dde085c31c2b4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:12 +0000
Subject: [PATCH 13/55] fix: Rule.predict does not truncate long labels and
 returns a Series for one-row DataFrames

---
 ruleskit/rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index f28b22c..af835ca 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,10 +513,10 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(len(self.prediction), 3)}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From 40826e786509f377c13fa78d3029c620458c4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:21 +0000
Subject: [PATCH 14/55] fix: rules correlation depends on the vectors' lengths,
 not on the numbers of features

---
 ruleskit/rule.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index af835ca..e27c2a4 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -526,11 +526,13 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
-            raise ValueError("Both vectors must have the same length")
 
-        sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
-        return self._activation.get_correlation(other._activation) * sign
+        def get_sign(prediction):
+            return prediction / abs(prediction) if prediction != 0 else 1  # 0 is positive, as in calc_sign
+
+        return self._activation.get_correlation(other._activation) * get_sign(self.prediction) * get_sign(
+            other.prediction
+        )
 
     def calc_activation(self, xs: Optional[Union[pd.DataFrame, np.ndarray]] = None):
         """Uses self.evaluate to set self._activation.
-- 
2.43.0


From 41489bb0f95f4b2256960189722e3e192556cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:27 +0000
Subject: [PATCH 15/55] fix: thresholds set for one rule are used by this rule

---
 ruleskit/rule.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index e27c2a4..ce70e91 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -87,6 +87,7 @@ class Rule(ABC):
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
         self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._has_own_thresholds: bool = False  # Will be True if self.set_thresholds is called
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -112,14 +113,16 @@ class Rule(ABC):
     # noinspection PyUnresolvedReferences
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
+        self._has_own_thresholds = True
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
 
     def check_thresholds(self, attribute: Optional[str] = None) -> None:
         """If `ruleskit.rule.Rule.THRESHOLDS` is specified, will check that this rule is good regarding those
-        thresholds, and set the flags *good* and *bad_because* accordingly
+        thresholds, and set the flags *good* and *bad_because* accordingly. If thresholds were specified for this rule
+        only, uses them instead.
 
         Parameters
         ----------
@@ -128,11 +131,12 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        thresholds = self._thresholds if self._has_own_thresholds else self.__class__.THRESHOLDS
+        if thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +144,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
-- 
2.43.0


From d88c72b958224ca7b0137f54c899df298435143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:34 +0000
Subject: [PATCH 16/55] fix: stacked statistics extract the activated targets
 whatever their values

---
 ruleskit/utils/rfunctions.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 170a2a4..847dd47 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -8,6 +8,11 @@ import pandas as pd
 logger = logging.getLogger(__name__)
 
 
+def activated_y(activation: pd.DataFrame, y: pd.Series) -> pd.DataFrame:
+    """Returns a DataFrame with one column per rule, containing y where the rule is activated and NaN elsewhere"""
+    return pd.concat([y.where(activation[c].values == 1) for c in activation.columns], axis=1, keys=activation.columns)
+
+
 def class_probabilities(
     activation: Union[np.ndarray, pd.DataFrame, None], y: Union[np.ndarray, pd.Series]
 ) -> Union[np.ndarray, pd.DataFrame]:
@@ -56,9 +61,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activated_y(activation, y)
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -124,9 +127,7 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activated_y(activation, y)
         return y_conditional.std()
 
 
@@ -400,12 +401,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = activated_y(activation_vector, y)
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From 3eb34663753e964396ad3bfd9064ec86e7cf4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:41 +0000
Subject: [PATCH 17/55] fix: std of a rule activated once is the same in
 stacked and unstacked fits

---
 ruleskit/utils/rfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 847dd47..c6f8faa 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -108,6 +108,7 @@ def conditional_std(
         raise TypeError("'activation' in conditional_std must be None or a np.ndarray or a pd.DataFrame")
     if isinstance(activation, np.ndarray):
         y_conditional = np.extract(activation, y)
+        y_conditional = y_conditional[~np.isnan(y_conditional)]
         if len(y_conditional) == 0:
             return np.nan
         if len(y_conditional) == 1:
@@ -128,7 +129,7 @@ def conditional_std(
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activated_y(activation, y)
-        return y_conditional.std()
+        return y_conditional.std().where(y_conditional.count() != 1, 0)
 
 
 def mse_function(
-- 
2.43.0


From 6a3fa55a64d6b81383b4e66f0918c60511ef8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:47 +0000
Subject: [PATCH 18/55] fix: mae_norm is normalised by the mean absolute
 deviation

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index c6f8faa..87bc5fe 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -213,7 +213,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From 19bb3ebf57cb554c8b1c011fe5a537e5f0b78063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:14 +0000
Subject: [PATCH 19/55] fix: unstacked regression prediction handles null,
 opposite and NaN predictions, and does not overflow

---
 ruleskit/utils/rfunctions.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 87bc5fe..550999b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -458,20 +458,20 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+            activated = np.zeros(len(activation), dtype=bool)
+        if rule.prediction is None or np.isnan(rule.prediction):
+            continue
+        mask = activation == 1
+        cum_pred[mask] += rule.prediction * weights[rulename]
+        cum_w[mask] += weights[rulename]
+        activated |= mask
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
-    return cum_pred / cum_w
+    return (cum_pred / cum_w).where(activated)
 
 
 def calc_ruleset_prediction_weighted_regressor_stacked(
@@ -500,15 +500,13 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if rule.prediction is None or np.isnan(rule.prediction):
+            continue
+        mask = activation == 1
+        cum_pred[mask] += rule.prediction
+        cum_w[mask] += 1
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 783b0fb0eba10932a27edebbb4168ec5570c1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:20 +0000
Subject: [PATCH 20/55] fix: unstacked classification votes are floats and NaN
 predictions do not vote

---
 ruleskit/utils/rfunctions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 550999b..81f94e1 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -558,13 +558,16 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if nones == 0:
             continue
+        if pd.isna(rule.prediction):
+            continue
+        vote = activation.astype(float) * weights[rulename]
         if preds is None:
-            preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
+            preds = pd.DataFrame(index=[rule.prediction], data=[vote])
         else:
             if rule.prediction not in preds.index:
-                preds.loc[rule.prediction] = activation * weights[rulename]
+                preds.loc[rule.prediction] = vote
             else:
-                preds.loc[rule.prediction] += activation * weights[rulename]
+                preds.loc[rule.prediction] += vote
     if preds is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From afcb28a23cef7fceed9f85866589ac485aae8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:59 +0000
Subject: [PATCH 21/55] fix: unstacked equally weighted classification predicts
 NaN if no rule is activated

---
 ruleskit/utils/rfunctions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 81f94e1..4756c3d 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -520,7 +520,10 @@ def calc_ruleset_prediction_equally_weighted_regressor_stacked(prediction_vector
 
 # noinspection PyUnresolvedReferences
 def calc_ruleset_prediction_weighted_classificator_unstacked(
-    rules: List["Rule"], weights: pd.Series, xs: Optional[Union[pd.DataFrame, np.ndarray]] = None
+    rules: List["Rule"],
+    weights: pd.Series,
+    xs: Optional[Union[pd.DataFrame, np.ndarray]] = None,
+    raise_if_no_vote: bool = True,
 ) -> pd.Series:
     if len(rules) == 0:
         return pd.Series(dtype=int)
@@ -536,6 +539,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             return (s == m).astype(int).replace(0, np.nan) * ps
 
     preds = None
+    n_points = None
     for rule in rules:
         rulename = str(rule.condition)
         if rulename not in weights.index:
@@ -556,6 +560,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             activation = activation.raw
         if activation is None:
             continue
+        n_points = len(activation)
         if nones == 0:
             continue
         if pd.isna(rule.prediction):
@@ -568,6 +573,8 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
                 preds.loc[rule.prediction] = vote
             else:
                 preds.loc[rule.prediction] += vote
+    if preds is None and n_points is not None and not raise_if_no_vote:
+        return pd.Series([np.nan] * n_points)
     if preds is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
@@ -590,7 +597,7 @@ def calc_ruleset_prediction_equally_weighted_classificator_unstacked(
     xs: Optional[Union[pd.DataFrame, np.ndarray]] = None,
 ) -> pd.Series:
     return calc_ruleset_prediction_weighted_classificator_unstacked(
-        rules, pd.Series({str(r.condition): 1 for r in rules}), xs=xs
+        rules, pd.Series({str(r.condition): 1 for r in rules}), xs=xs, raise_if_no_vote=False
     )
 
 
-- 
2.43.0


From e66e20da3b40eb588fb133eb84c8a6b9b5c1e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:04 +0000
Subject: [PATCH 22/55] fix: stacked classification votes keep their row and
 ties give no prediction

---
 ruleskit/utils/rfunctions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 4756c3d..c7e7557 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -617,11 +617,10 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    if len(most_freq_pred.columns) == 0:  # Happens if no point is activated
+        return pd.Series(np.nan, index=idx)
+    # The most frequent prediction(s) are in the first column(s). No prediction is made if there are several.
+    most_freq_pred = most_freq_pred.iloc[:, 0].loc[most_freq_pred.count(axis=1) == 1]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From 5bd4776ae3f2ccc9d1cae8b51a03860bf793b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:09 +0000
Subject: [PATCH 23/55] fix: stacked weighted classification sums the weights
 of each class, as the unstacked one

---
 ruleskit/utils/rfunctions.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index c7e7557..2e4ac33 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -605,10 +605,21 @@ def calc_ruleset_prediction_weighted_classificator_stacked(
     prediction_vectors: pd.DataFrame, weights: pd.DataFrame
 ) -> pd.Series:
     prediction_vectors, weights = init_weights_stacked(prediction_vectors, weights)
-    # noinspection PyUnresolvedReferences
-    mask = (weights.T == weights.max(axis=1)).T
-    prediction_vectors = prediction_vectors[mask]
-    return calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_vectors)
+    idx = prediction_vectors.index
+    # Total weight of each class at each observation, in a DataFrame with classes as columns
+    votes = pd.DataFrame(
+        {
+            c: weights[prediction_vectors == c].sum(axis=1, min_count=1)
+            for c in pd.unique(prediction_vectors.values.ravel())
+            if not pd.isna(c)
+        },
+        index=idx,
+    ).dropna(how="all")
+    if votes.empty:
+        return pd.Series(np.nan, index=idx)
+    # No prediction is made if several classes have the greatest weight
+    votes = votes.loc[votes.eq(votes.max(axis=1), axis=0).sum(axis=1) == 1]
+    return votes.idxmax(axis=1).reindex(idx)
 
 
 def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_vectors: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 52fcffbf07ae37c93b640a229451a2a506e7bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:15 +0000
Subject: [PATCH 24/55] fix: stacked classification accepts rules that are
 never activated

---
 ruleskit/ruleset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..1c4b289 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1091,8 +1091,9 @@ class RuleSet(ABC):
             if issubclass(self.rule_type, ClassificationRule):
                 class_probabilities = functions.class_probabilities(stacked_activations, y)
                 maxs = class_probabilities.max()
+                # The prediction of a rule that is never activated is NaN
                 return class_probabilities[class_probabilities == maxs].apply(
-                    lambda x: x.dropna().sort_index().index[0]
+                    lambda x: x.dropna().sort_index().index[0] if x.notna().any() else np.nan
                 )
             elif issubclass(self.rule_type, RegressionRule):
                 return functions.conditional_mean(stacked_activations, y)
@@ -1288,8 +1289,8 @@ class RuleSet(ABC):
         if stacked_activations is None:
             return None
 
-        if isinstance(self[0].prediction, str):
-            prediction_vectors = stacked_activations.replace(0, np.nan).replace(1.0, "") + predictions
+        if any([isinstance(p, str) for p in predictions]):
+            prediction_vectors = stacked_activations.apply(lambda x: (x == 1).map({True: predictions[x.name]}))
         else:
             prediction_vectors = stacked_activations.replace(0, np.nan) * predictions
         if prediction_vectors.empty:
-- 
2.43.0


From 09e2eb91e7c1dd699c7057def90ecdcacc0a3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 25/55] fix: success rate is NaN if nothing is predicted

---
 ruleskit/utils/rfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 2e4ac33..b39027a 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -324,8 +324,8 @@ def success_rate(
             return np.nan
         return sum(prediction == y) / len(y)
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
-        if len(y) == 0:
-            return pd.Series(dtype=int)
+        if prediction.isna().all():  # Nothing is activated, or votes are all tied
+            return np.nan
         return sum(prediction == y) / len(prediction.dropna())
     else:
         if not isinstance(y, pd.DataFrame):
-- 
2.43.0


From e6bbab7e878a6ac82cba2e3d483c9837bf71f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 26/55] fix: adding a RuleSet to a stacked one copies the
 stacked activations of all its rules

---
 ruleskit/ruleset.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1c4b289..90bc25f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -305,18 +305,20 @@ class RuleSet(ABC):
         the stacked activation vectors of another RuleSet."""
         if other.activation_available:
 
-            if self.stacked_activations is None:
-                if isinstance(other, Rule):
+            if isinstance(other, Rule):
+                if self.stacked_activations is None:
                     self.stacked_activations = pd.DataFrame(
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
-            else:
-                if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
+            else:
+                # other might not have its stacked activations
+                stacked_activations = other.evaluate_stacked_activations()
+                if self.stacked_activations is None:
+                    self.stacked_activations = stacked_activations
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat([self.stacked_activations, stacked_activations], axis=1)
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From d0242972ef98de9f769ab80c97ba401e296bc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:08 +0000
Subject: [PATCH 27/55] fix: a failed append does not disable the computation
 of the ruleset's activation

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 90bc25f..ecf33e4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -690,9 +690,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From 40854162f9766a9ad12a8fd8d851b247827e8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:14 +0000
Subject: [PATCH 28/55] fix: a rule with an incompatible activation vector is
 not added to the ruleset

---
 ruleskit/ruleset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index ecf33e4..53c39dd 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -129,7 +129,7 @@ class RuleSet(ABC):
                         f"Ruleset previously had rules of type {self.rule_type},"
                         f" so can not add rule of type {type(other)}"
                     )
-            self._rules.append(other)
+            new_rules = [other]
         else:
             if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
                 raise TypeError(
@@ -138,15 +138,17 @@ class RuleSet(ABC):
                 )
             if self._rule_type is None and other._rule_type is not None:
                 self.rule_type = other.rule_type
-            self._rules += other._rules
+            new_rules = list(other._rules)
 
-        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
-        if hasattr(other, "features_names"):
-            self.features_names = list(set(self.features_names + other.features_names))
+        # First, as it raises an error if the activation vectors do not have the same length
         if self._compute_activation:
             self._update_activation(other)
         if self.stack_activation:
             self._update_stacked_activation(other)
+        self._rules += new_rules
+        self.features_indexes = list(set(self.features_indexes + other.features_indexes))
+        if hasattr(other, "features_names"):
+            self.features_names = list(set(self.features_names + other.features_names))
         return self
 
     def __add__(self, other: Union["RuleSet", Rule]):
-- 
2.43.0


From 16a2690d2ba7e9c8f6228bac55b0e7e3a23c42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:19 +0000
Subject: [PATCH 29/55] fix: RuleSet.eval recomputes activations when it drops
 rules

---
 ruleskit/ruleset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 53c39dd..f93a35a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -652,12 +652,9 @@ class RuleSet(ABC):
                 self.append(r, update_activation=False)
 
             # Recompute activation now that bad rules have been droped
-            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
-                self._activation = None
-                self.compute_self_activation()
-            if self.stack_activation and (
-                    self.stacked_activations is None or (xs is not None and keep_new_activations)
-            ):
+            self._activation = None
+            self.compute_self_activation()
+            if self.stack_activation:
                 self.stacked_activations = None
                 self.compute_stacked_activation()
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
-- 
2.43.0


From 296c3a539aa3877ced91809d5b4c1bc940d96b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:25 +0000
Subject: [PATCH 30/55] fix: stacked fit and eval drop each bad rule once

---
 ruleskit/ruleset.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index f93a35a..70b6a32 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -413,7 +413,6 @@ class RuleSet(ABC):
                 computed_attrs[f"{attr}s"] = launch_method(
                     getattr(self, f"calc_{attr}s"), y=y, xs=xs, **computed_attrs, **kwargs
                 )
-            to_drop = []
 
             if clean_activation:
                 self.del_stacked_activations()
@@ -429,11 +428,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+            to_drop = [r for r in self if not r.good]
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -613,8 +611,6 @@ class RuleSet(ABC):
                     **kwargs,
                 )
 
-            to_drop = []
-
             if clean_activation:
                 self.del_stacked_activations()
             else:
@@ -629,10 +625,9 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+            to_drop = [r for r in self if not r.good]
         else:
             [
                 r.eval(
-- 
2.43.0


From 9d166573d8bf7a7f37f4c66d85289c5ae540ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:29 +0000
Subject: [PATCH 31/55] fix: the features of dropped rules are removed from the
 ruleset

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 70b6a32..e339ebe 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -439,6 +439,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -640,6 +642,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
-- 
2.43.0


From aba1e9eb9f516e660f799a65dc73d22f3d599413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:35 +0000
Subject: [PATCH 32/55] fix: setting rules updates the rule type, and sorting
 does not need stacked activations

---
 ruleskit/ruleset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index e339ebe..c44c839 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -243,6 +243,7 @@ class RuleSet(ABC):
         self.features_indexes = ruleset.features_indexes
         self.stacked_activations = ruleset.stacked_activations
         self._activation = ruleset._activation
+        self._rule_type = ruleset._rule_type
 
     @property
     def to_hash(self) -> Tuple[str]:
@@ -267,9 +268,7 @@ class RuleSet(ABC):
     @property
     def stacked_activations_available(self) -> bool:
         """Returns True is the RuleSet has its rules' stacked activations."""
-        if self.stack_activation is None or self._activation.length == 0:
-            return False
-        return True
+        return self.stacked_activations is not None and len(self.stacked_activations.index) > 0
 
     @property
     def activation(self) -> Union[None, np.ndarray]:
@@ -329,7 +328,7 @@ class RuleSet(ABC):
                 # noinspection PyProtectedMember
                 r._condition._features_indexes = [self.__class__.all_features_indexes[f] for f in r.features_names]
         else:
-            list(set(itertools.chain(*[rule.features_indexes for rule in self])))
+            self.features_indexes = list(set(itertools.chain(*[rule.features_indexes for rule in self])))
 
     # noinspection PyProtectedMember
     def fit(
@@ -752,7 +751,7 @@ class RuleSet(ABC):
             self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
-        if self.stack_activation:
+        if self.stack_activation and self.stacked_activations is not None:
             self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
 
     # noinspection PyProtectedMember
-- 
2.43.0


From a26b4f9c8c7b1b1f830e2751d05c089004ed4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 33/55] fix: the test set size is saved

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c44c839..1d63466 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -974,7 +974,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From d1572b84af6e0595a1daff0d1215081f1b0bac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 34/55] fix: loading a ruleset restores numbers, infinities,
 labels with spaces, names, signs and features indexes

---
 ruleskit/ruleset.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1d63466..047ecee 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1,6 +1,7 @@
 import inspect
 from abc import ABC
 import ast
+import re
 import pandas as pd
 from copy import copy
 from typing import List, Union, Tuple, Any, Optional, Callable
@@ -893,19 +894,23 @@ class RuleSet(ABC):
         else:
             rules = pd.read_csv(path, **kwargs)
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = float(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset train set size"].index)
-            if isinstance(self.train_set_size, str):
+            if pd.isna(self.train_set_size):
+                self.train_set_size = None
+            elif isinstance(self.train_set_size, str):
                 self.train_set_size = int(self.train_set_size)
         if "ruleset test set size" in rules.iloc[:, 0].values:
             self.test_set_size = rules[rules.iloc[:, 0] == "ruleset test set size"].iloc[0, 1]
-            if isinstance(self.test_set_size, str):
+            if pd.isna(self.test_set_size):
+                self.test_set_size = None
+            elif isinstance(self.test_set_size, str):
                 self.test_set_size = int(self.test_set_size)
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset test set size"].index)
         if rules.empty:
@@ -928,6 +933,7 @@ class RuleSet(ABC):
         if self.stack_activation:
             self.compute_stacked_activation()
         self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.features_indexes = list(set(traverse([rule.features_indexes for rule in self])))
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
@@ -1018,11 +1024,17 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
+
+        def read_value(value: str):
+            """Like ast.literal_eval, but can handle infinities"""
+            return ast.literal_eval(re.sub(r"\binf\b", "1e999", value))
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-            if rule_ind in condition_index:
+            if rule_ind in ("bmins", "bmaxs"):
+                condition_index[rule_ind] = read_value(str_value)
+            elif rule_ind in condition_index:
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
@@ -1035,13 +1047,15 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
-                        setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
+                        setattr(rule, f"_{rule_ind}", read_value(str_value))
             else:
                 continue
 
+        if isinstance(rule, RegressionRule):
+            rule.calc_sign()
         rule._condition = HyperrectangleCondition(**condition_index)
         if hasattr(rule, rule.__class__.fitted_if_has) and getattr(rule, rule.__class__.fitted_if_has) is not None:
             rule._fitted = True
-- 
2.43.0


From 88468e3647b0668b0e2ddc3a0f6bb233c10dca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:31 +0000
Subject: [PATCH 35/55] fix: rules extracted from a tree do not leave their
 parent's node

---
 ruleskit/utils/rule_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..92648ae 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,7 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(decision_tree.n_features)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
@@ -163,7 +163,7 @@ def extract_rules_from_tree(
             # Means we are not at first node. Same logic as previously, except this time
             # if Xi is in the list of features then the new bmins is now the threshold
             # and bmaxs is modified to be the X maximum. Then keep the max of current
-            # and new bmins as bmins, same for bmaxs.
+            # and new bmins as bmins, and the min of current and new bmaxs as bmaxs.
             # TODO there is something weird here, for X_i will necessarily be in cond, since
             # it was added at the very beginning of the function.
             if condition is not None:
@@ -175,7 +175,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From dde046683902a94a204e1efb27e9c2ee2da1bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:53 +0000
Subject: [PATCH 36/55] fix: membership in a rule set compares conditions and
 predictions by content, not by their text

---
 ruleskit/ruleset.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 047ecee..a1b4788 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -206,16 +206,11 @@ class RuleSet(ABC):
     # noinspection PyProtectedMember
     def __contains__(self, other: Rule) -> bool:
         """A RuleSet contains another Rule if the two rule's conditions and predictions are the same"""
-        name_or_index = "name" if len(self.features_names) > 0 else "index"
-
-        if name_or_index == "index":
-            str_rules = [str(r.features_indexes) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_indexes) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-        else:
-            str_rules = [str(r.features_names) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_names) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-
-        return str_rule in str_rules
+        return any(
+            r.condition == other.condition
+            and (r.prediction == other.prediction or (pd.isna(r.prediction) and pd.isna(other.prediction)))
+            for r in self
+        )
 
     @property
     def rule_type(self) -> type:
-- 
2.43.0


From 263612fb8133bd409f0ac5c3c188b99ec28de85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 37/55] fix: adding rule sets with rules of different types is
 refused even if conditions are equal

---
 ruleskit/ruleset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a1b4788..4a1ed67 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -158,6 +158,11 @@ class RuleSet(ABC):
         if isinstance(other, Rule):
             rules = self.rules + [other]
         else:
+            if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
+                raise TypeError(
+                    f"Ruleset previously had rules of type {self.rule_type},"
+                    f" so can not add rules of type {other.rule_type}"
+                )
             stack_activation &= other.stack_activation
             rules = list(set(self.rules + other.rules))
         return self.__class__(rules, compute_activation=self._compute_activation, stack_activation=stack_activation)
-- 
2.43.0


From 4e8b8be2075e29b2a1e27c109d2fe0b9cd7b6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:01 +0000
Subject: [PATCH 38/55] fix: normalised criteria ignore missing targets instead
 of being missing

---
 ruleskit/utils/rfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index b39027a..153b5a1 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -171,7 +171,7 @@ def mse_function(
 def mse_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mse_function(prediction_vector, y) / np.mean((np.mean(y) - y) ** 2)
+    return mse_function(prediction_vector, y) / np.nanmean((np.nanmean(y) - y) ** 2)
 
 
 def mae_function(
@@ -213,7 +213,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
+    return mae_function(prediction_vector, y) / np.nanmean(np.abs(np.nanmean(y) - y))
 
 
 def aae_function(
@@ -242,13 +242,13 @@ def aae_function(
         if len(prediction_vector) != len(y):
             raise ValueError("The two array must have the same length")
         error = np.nanmean(np.abs(prediction_vector - y))
-        median = np.nanmean(np.abs(y - np.median(y)))
+        median = np.nanmean(np.abs(y - np.nanmedian(y)))
         return error / median
     else:
         if len(prediction_vector.index) != len(y):
             raise ValueError("Predictions and y must have the same length")
         error_vector = prediction_vector.sub(y, axis=0).abs().mean()
-        median = np.mean(np.abs(y - np.median(y)))
+        median = np.nanmean(np.abs(y - np.nanmedian(y)))
         return error_vector / median
 
 
-- 
2.43.0


From ce06d669668a328acd6fee8027edaccae46b8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:35 +0000
Subject: [PATCH 39/55] fix: an unknown criterion is refused by stacked
 classification rule sets too

---
 ruleskit/utils/rfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 153b5a1..94020ea 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -403,7 +403,10 @@ def calc_classification_criterion(
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activated_y(activation_vector, y)
-        return success_rate(prediction, y_conditional)
+        if method.lower() == "success_rate":
+            return success_rate(prediction, y_conditional)
+        else:
+            raise ValueError(f"Unknown criterion: {method}. Please choose among:\n* success_rate")
 
 
 def init_weights_stacked(prediction_vectors: pd.DataFrame, weights: pd.DataFrame) -> Tuple[pd.DataFrame, pd.DataFrame]:
-- 
2.43.0


From 5230bc1f18c8d6143867a7f8a0e83e555ccc03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 40/55] fix: classification criterion is refused if y does not
 have the length of the activation

---
 ruleskit/utils/rfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 94020ea..6fe7bff 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -374,6 +374,9 @@ def calc_classification_criterion(
     if isinstance(prediction, np.ndarray):
         raise TypeError("Prediction should not be a numpy array")
 
+    if len(activation_vector) != len(y):
+        raise ValueError("Activation vector(s) and y must have the same length")
+
     if isinstance(activation_vector, np.ndarray):
         y_conditional = np.extract(activation_vector != 0, y)
         if isinstance(prediction, pd.Series):
-- 
2.43.0


From 79275a87c792c4fe8fc1b2775425c42e700fc8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 41/55] fix: activations given as bitarrays of different
 endianness can be combined

---
 ruleskit/activation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index d49bd7e..461692c 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -359,6 +359,7 @@ class Activation(ABC):
         """
 
         logger.debug(f"Activation vector is a bitarray")
+        value = bitarray(value, endian="big")  # Binary operators need all bitarrays to have the same endianness
         self.length = len(value)
         self._sizeof_bitarray = sys.getsizeof(value) / 1e6
         self._nones = value.count(1)
-- 
2.43.0


From 7ab667834fc614c7d80841119d38cbc65b633886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:50 +0000
Subject: [PATCH 42/55] fix: as_bitarray works on lasy vectors whose file does
 not contain integers

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 461692c..bd00a5d 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -1117,7 +1117,7 @@ class Activation(ABC):
         elif isinstance(value, int):
             raise TypeError("Can not use _raw_to_bitarray on a integer vector")
         # noinspection PyTypeChecker
-        return bitarray(value.tolist())
+        return bitarray(value.astype(np.ubyte).tolist())
 
     @staticmethod
     def _raw_to_integer(value: np.ndarray) -> int:
-- 
2.43.0


From 43db9289cc326a61e6c78e15af4dd8d1a768bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:29 +0000
Subject: [PATCH 43/55] fix: frozen bitarrays are accepted when WILL_COMPARE is
 set

---
 ruleskit/activation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index bd00a5d..1fdc004 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -235,9 +235,7 @@ class Activation(ABC):
             t0 = time()
             if length is None:
                 length = len(activation)
-            activation = int(
-                str(activation).replace("bitarray(", "").replace(")", "").replace("'", "").replace('"', ""), 2
-            )
+            activation = int(activation.to01(), 2)
             self._time_bitarray_to_integer = time() - t0
             self._n_bitarray_to_integer += 1
             self._sizeof_integer = sys.getsizeof(activation) / 1e6
-- 
2.43.0


From b5fe056d5dec46c24dbbb713f26215d8b0c1cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 44/55] fix: setting an attribute of the condition or
 activation through a rule only shadowed it

Rule.__setattr__ is documented to set on the condition or the activation the
attributes the rule does not know, but it asked hasattr(self, item), which is
True for all of them because of __getattr__: rule.bmins = [...] changed
rule.bmins but neither the condition nor what the rule evaluates to.
---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index ce70e91..73bffaa 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -273,7 +273,7 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        if not hasattr(self.__class__, item):  # hasattr(self, item) is True for those of the condition and activation
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From 60dfa969ff3989c06a004433e45017043e914c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:25 +0000
Subject: [PATCH 45/55] fix: activation of a rule or rule set whose data were
 deleted is None

The property is documented to be None when the vector is not available, and
predict relies on it, but it raised TypeError or FileNotFoundError, depending on
the storage format, after del_activation.
---
 ruleskit/rule.py    | 2 +-
 ruleskit/ruleset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 73bffaa..e12ea44 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -220,7 +220,7 @@ class Rule(ABC):
         np.ndarray
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self.activation_available and self._activation:
             return self._activation.raw
         return None
 
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4a1ed67..5b2cb04 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -280,7 +280,7 @@ class RuleSet(ABC):
         Union[None, np.ndarray]
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self.activation_available:
             return self._activation.raw
         return None
 
-- 
2.43.0


From ff8f35697fafbaa924aae86081b2346f5579e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:25 +0000
Subject: [PATCH 46/55] fix: coverage of a rule set was lost by del_activation

del_activation is documented to keep the computed attributes available.
---
 ruleskit/ruleset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5b2cb04..4c4efc2 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -287,6 +287,8 @@ class RuleSet(ABC):
     @property
     def ruleset_coverage(self) -> float:
         """Coverage is the fraction of points equal to 1 in the activation vector"""
+        if self._activation is not None and self._activation._nones is not None and self._activation.length > 0:
+            return self._activation.coverage  # Known even if the data were deleted by del_activation
         if not self.activation_available:
             return self._coverage
         else:
-- 
2.43.0


From 83b257cbf2353fc621e4e1af4c05be11a399100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:04 +0000
Subject: [PATCH 47/55] fix: duplicated rules were recognised by the text of
 their bounds and predictions

0 and 0.0, or the features of a condition in another order, were not seen as
duplicates, and classes '1' and 1 were.
---
 ruleskit/ruleset.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4c4efc2..a10ce8b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -48,21 +48,25 @@ class RuleSet(ABC):
 
     @staticmethod
     def check_duplicated_rules(rules, name_or_index: str = "index"):
-        if name_or_index == "index":
-            str_rules = [str(r.features_indexes) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in rules]
-        else:
-            str_rules = [str(r.features_names) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in rules]
-        if len(set(str_rules)) < len(str_rules):
+        # Not the text of bounds and predictions : 0 and 0.0 are the same bound, "1" and 1 are different classes
+        keys = [
+            (
+                frozenset(zip(r.features_indexes if name_or_index == "index" else r.features_names, r.bmins, r.bmaxs)),
+                None if pd.isna(r.prediction) else r.prediction,
+            )
+            for r in rules
+        ]
+        if len(set(keys)) < len(keys):
             duplicated = {}
-            for r in str_rules:
-                if r not in duplicated:
-                    duplicated[r] = 0
-                duplicated[r] += 1
+            for k in keys:
+                if k not in duplicated:
+                    duplicated[k] = 0
+                duplicated[k] += 1
             duplicated = [
-                f"{r}: {duplicated[r]} (positions {[i for i, x in enumerate(str_rules) if x == r]})\n"
-                f"   underlying rules : {[str(rules[i]) for i in [i for i, x in enumerate(str_rules) if x == r]]}"
-                for r in duplicated
-                if duplicated[r] > 1
+                f"{rules[keys.index(k)]}: {duplicated[k]} (positions {[i for i, x in enumerate(keys) if x == k]})\n"
+                f"   underlying rules : {[str(rules[i]) for i in [i for i, x in enumerate(keys) if x == k]]}"
+                for k in duplicated
+                if duplicated[k] > 1
             ]
             s = "\n -".join(duplicated)
             raise ValueError(f"There are {len(duplicated)} duplicated rules in your ruleset !\n {s}")
-- 
2.43.0


From 1203ed03dd7106a750b8ec97c9c6436d138b2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:31 +0000
Subject: [PATCH 48/55] fix: predictions of a loaded classification rule set
 without activations raise ValueError

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 6fe7bff..96aff2b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -559,7 +559,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if xs is None:
             activation = rule.activation
-            nones = rule.nones
+            nones = None if activation is None else rule.nones
         else:
             activation = rule.evaluate_activation(xs)
             nones = activation.nones
-- 
2.43.0


From 492f93a7c887fde65a7c9f0a07bf74dcadcf65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:39 +0000
Subject: [PATCH 49/55] fix: limits relative to an attribute that is not
 computed yet are checked when it is

---
 ruleskit/thresholds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 2cab835..a19f822 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -73,11 +73,14 @@ class Thresholds:
             value = Thresholds.KWOWN_ARGS[threshold["arg"]](value)
             s = f"{threshold['arg']}({tkey})"
 
-        for lim in threshold:
+        for lim in list(threshold):
             if lim == "arg":
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
+                if threshold[lim] is None:  # Not computed yet, will be checked when it is
+                    del threshold[lim]
+                    continue
             if not isinstance(threshold[lim], (int, float)):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
-- 
2.43.0


From ae4ba67297b7deeb5ff9e77e745b43a986532a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:07 +0000
Subject: [PATCH 50/55] fix: limits relative to an attribute that is a numpy
 integer were refused

---
 ruleskit/thresholds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index a19f822..c462ee2 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -4,6 +4,7 @@ from copy import copy
 from typing import Union
 from pathlib import Path
 from json import load
+from numbers import Real
 
 logger = logging.getLogger(__name__)
 
@@ -81,7 +82,7 @@ class Thresholds:
                 if threshold[lim] is None:  # Not computed yet, will be checked when it is
                     del threshold[lim]
                     continue
-            if not isinstance(threshold[lim], (int, float)):
+            if not isinstance(threshold[lim], Real):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
         if "min" in threshold and value < threshold["min"]:
-- 
2.43.0


From 2ba3ed3abce9b5c5f73890d7d0360bd4d07b2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:10 +0000
Subject: [PATCH 51/55] fix: rule sets of rules whose conditions have no
 feature names could not be built nor counted

---
 ruleskit/ruleset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a10ce8b..6f3ace2 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -105,7 +105,6 @@ class RuleSet(ABC):
         self._rule_type = None
         self._compute_activation = True  # Should NOT be equal to given compute_activation argument, but always True.
         if rules_list is not None:
-            names_available = all([hasattr(r.condition, "features_names") for r in self])
             for rule in rules_list:
                 if not isinstance(rule, Rule) and rule is not None:
                     raise TypeError(f"Some rules in given iterable were not of type 'Rule' but of type {type(rule)}")
@@ -115,7 +114,7 @@ class RuleSet(ABC):
                 self.compute_self_activation()
             if self.stack_activation:
                 self.compute_stacked_activation()
-            if names_available:
+            if all([hasattr(r.condition, "features_names") for r in self]):
                 self.features_names = list(set(itertools.chain(*[rule.features_names for rule in self])))
             self.set_features_indexes()
         if self.__class__.CHECK_DUPLICATED:
@@ -888,7 +887,7 @@ class RuleSet(ABC):
         if len(self.features_names) > 0:
             var_in = list(itertools.chain(*[rule.features_names for rule in self]))
         else:
-            var_in = list(itertools.chain(*[rule.feautres_indexes for rule in self]))
+            var_in = list(itertools.chain(*[rule.features_indexes for rule in self]))
         count = Counter(var_in)
 
         count = count.most_common()
-- 
2.43.0


From 0164e27afb409cf702b0719f78dad888cb1548e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:56 +0000
Subject: [PATCH 52/55] fix: the text of a classification rule fitted alone
 showed its class probabilities instead of its prediction

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index e12ea44..660e49c 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -302,7 +302,7 @@ class Rule(ABC):
     def __str__(self) -> str:
         prediction = "<prediction unset>"
         if self._prediction is not None:
-            prediction = self._prediction
+            prediction = self.prediction
         if self._condition is None:
             return "empty rule"
         return f"If {self._condition.__str__()} Then {prediction}."
-- 
2.43.0


From 40d4f4ab7a57069764a2b3d8470f6bc34f9ba9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:33 +0000
Subject: [PATCH 53/55] fix: boolean labels made the prediction of
 classification rules raise after a stacked fit

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 660e49c..f310e67 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -738,7 +738,7 @@ class ClassificationRule(Rule):
         containing the probability of each class. In that case, the most probable class is returned. If the rule was
         fitted in a stacked fit, then the prediction is already the most probable class and it is just returned."""
         if self._prediction is not None:
-            if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
+            if isinstance(self._prediction, (float, int, str, np.generic)):
                 return self._prediction
             if len(self._prediction) == 0:  # The rule was never activated
                 return np.nan
-- 
2.43.0


From 1ea786f32781d0cb9ed9486a2f7db7e2bad07e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:29 +0000
Subject: [PATCH 54/55] fix: a stacked fit or eval that fails left stacked
 activations behind, with another index, and kept stacking activations

---
 ruleskit/ruleset.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6f3ace2..493a7d1 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1,3 +1,4 @@
+import functools
 import inspect
 from abc import ABC
 import ast
@@ -33,6 +34,26 @@ from .utils.rfunctions import (
 logger = logging.getLogger(__name__)
 
 
+def _restore_stacking_on_error(method):
+    """Stacked fit and eval temporarily change the stacked activations and how they are kept. If they fail, put that
+    back, or the next calls would use stacked activations that are not supposed to be there or have another index."""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        stack_activation = self.stack_activation
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.stack_activation = stack_activation
+            if not stack_activation:
+                self.del_stacked_activations()
+            elif self.stacked_activations is not None:
+                self.stacked_activations.index = pd.RangeIndex(len(self.stacked_activations.index))
+            raise
+
+    return wrapper
+
+
 class RuleSet(ABC):
     """A set of rules"""
 
@@ -337,6 +358,7 @@ class RuleSet(ABC):
             self.features_indexes = list(set(itertools.chain(*[rule.features_indexes for rule in self])))
 
     # noinspection PyProtectedMember
+    @_restore_stacking_on_error
     def fit(
         self,
         y: Union[np.ndarray, pd.Series],
@@ -479,6 +501,7 @@ class RuleSet(ABC):
         return to_drop
 
     # noinspection PyProtectedMember
+    @_restore_stacking_on_error
     def eval(
         self,
         y: Union[np.ndarray, pd.Series],
-- 
2.43.0


From a97219aa37cafc8591d5514dd265f6cb0c72e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:20 +0000
Subject: [PATCH 55/55] fix: targets of a single observation given as a column
 or one-column frame crashed the statistics of stacked activations

---
 ruleskit/utils/rfunctions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 96aff2b..f7e71e9 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -51,14 +51,14 @@ def class_probabilities(
     else:
         if isinstance(y, pd.DataFrame):
             if len(y.columns) == 1:
-                y = y.squeeze()
+                y = y.iloc[:, 0]
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         elif isinstance(y, np.ndarray):
             if len(y.shape) == 1:
                 y = pd.Series(y)
             elif y.shape[1] == 1:
-                y = pd.Series(y.squeeze())
+                y = pd.Series(y[:, 0])
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activated_y(activation, y)
@@ -118,14 +118,14 @@ def conditional_std(
     else:
         if isinstance(y, pd.DataFrame):
             if len(y.columns) == 1:
-                y = y.squeeze()
+                y = y.iloc[:, 0]
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         elif isinstance(y, np.ndarray):
             if len(y.shape) == 1:
                 y = pd.Series(y)
             elif y.shape[1] == 1:
-                y = pd.Series(y.squeeze())
+                y = pd.Series(y[:, 0])
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activated_y(activation, y)
@@ -395,14 +395,14 @@ def calc_classification_criterion(
             )
         if isinstance(y, pd.DataFrame):
             if len(y.columns) == 1:
-                y = y.squeeze()
+                y = y.iloc[:, 0]
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         elif isinstance(y, np.ndarray):
             if len(y.shape) == 1:
                 y = pd.Series(y)
             elif y.shape[1] == 1:
-                y = pd.Series(y.squeeze())
+                y = pd.Series(y[:, 0])
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activated_y(activation_vector, y)
-- 
2.43.0

