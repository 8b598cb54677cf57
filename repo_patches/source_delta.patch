From 79a95fdc686ee623164ea2c560704372f2ebbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 01/22] fix: ecdf1_new_b/ecdf1_new_B on samples of size 0 and 1

With n==1 the jump size was 2 > n, tripping the assertion in
poisson_B_noncrossing_probability_n2(). With n==0 the code read B[-1].
---
 src/ecdf1_new.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..2fd6b55 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -116,11 +116,15 @@ double ecdf1_new_B(const vector<double>& B)
     //cout << "Called ecdf1_new_B()\n";
     int n = B.size();
     check_boundary_vector("B", n, B);
+    if (n == 0) {
+        return 1.0; // An empty sample cannot cross anything.
+    }
 
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
     int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    k = min(k, n);
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From 1c410a42b197dfc3a1ce839ea712b9b5a4fbd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 02/22] fix: ecdf2 returns 0 when some b_i > B_i

Such boundaries leave a negative number of states to convolve, which tripped
the assertion in PoissonPMFGenerator::compute_array().
---
 src/ecdf2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..82ce0a1 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,12 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0; // b_i <= X_(i) <= B_i is impossible.
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From 52547785f259a3a6982bc63c21134e7f8de6117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 03/22] fix: reject NaN boundaries

NaNs compare false to everything, so they passed both the monotonicity and
the range check and a meaningless probability was returned.
---
 src/common.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..47923a6 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -2,9 +2,23 @@
 
 #include <stdexcept>
 #include <sstream>
+#include <cstring>
+#include <stdint.h>
 
 using namespace std;
 
+// This code is compiled with -ffast-math, where comparisons (and isnan) cannot be relied on to detect NaNs.
+static bool contains_nan(const vector<double>& v)
+{
+    for (size_t i = 0; i < v.size(); ++i) {
+        uint64_t bits;
+        memcpy(&bits, &v[i], sizeof(bits));
+        if ((bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000)) {
+            return true;
+        }
+    }
+    return false;
+}
 
 static bool is_monotone_increasing(const vector<double>& v)
 {
@@ -26,6 +40,12 @@ void check_boundary_vector(string name, int n, const vector<double>& v)
         throw runtime_error(ss.str());
     }
 
+    if (contains_nan(v)) {
+        stringstream ss;
+        ss << name << "_1,...," << name << "_" << n << " must be numbers in the interval [0,1].";
+        throw runtime_error(ss.str());
+    }
+
     if (!is_monotone_increasing(v)) {
         stringstream ss;
         ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
-- 
2.43.0


From 34b368c6a681bc703df69887547fc2a17c28b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 04/22] fix: ecdf1_mns2016 returned NaN when the probability is
 zero

Rounding errors make the integral slightly negative when the non-crossing
probability is (nearly) zero, e.g. for b = 0.3, 1.0
---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..9f03498 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // The integral is non-negative, up to rounding errors. Its logarithm would be a NaN.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 82bc1437e0506df79e46019c29d30f186caf8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 05/22] fix: crossprob_mc used uninitialized TinyMT64
 parameters

tinymt64_init() and tinymt64_next_state() read mat1, mat2 and tmat, which were
never set, so the random numbers depended on uninitialized stack memory.
---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..3f9f2ce 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // Standard TinyMT64 parameters. These must be set before calling tinymt64_init.
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From 214953f4685940aaac601009af5c1ef0022a6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 06/22] fix: crossprob_mc poisson with an empty first line
 always printed 0

An empty b means that no upper boundary was specified, but every process that
made at least one step was counted as crossing.
---
 src/crossprob_mc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 3f9f2ce..2b138cb 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -125,7 +125,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // If no upper bound is specified then it is enough to simulate the first B.size() steps.
+    size_t max_steps = b.empty() ? B.size() : b.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -136,7 +137,7 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
-            return true;
+            return b.empty() ? does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B) : true;
         }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
@@ -151,7 +152,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From fcc6a6a0a9a56f6d0599b19175ff192e5ed2ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 07/22] fix: crossprob_mc printed nan for 0 simulations

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 2b138cb..3b4ce8d 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -205,9 +205,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
 
     string filename = string(argv[2]);
     long num_simulations = string_to_long(argv[3]);
-    if (num_simulations < 0) {
+    if (num_simulations <= 0) {
         print_usage();
-        throw runtime_error("num-simulations must be non-negative!");
+        throw runtime_error("num-simulations must be positive!");
     }
 
     pair<vector<double>, vector<double> > bounds = read_and_check_boundaries_file(filename);
-- 
2.43.0


From 47b11ae4f8098c42ae964c5f657505dd6ffc9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 08/22] fix: crossprob_mc never finished more than 2^31-1
 simulations

The int loop counter wrapped around before reaching num_simulations.
---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 3b4ce8d..1d783f1 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -153,8 +153,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 6c71cc87e5bc914d01feebc11e5a385998dc95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 09/22] fix: integer overflow in the seed of the Poisson
 simulation

For n > 2147 the product does not fit in an int, which is undefined behavior.
---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 1d783f1..86a709e 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -150,7 +150,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
         return 1.0;
     }
 
-    ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
+    ExponentialRNG exprng(time(NULL) + (uint64_t)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
     long count_crossings = 0;
-- 
2.43.0


From dbbf80cc7dfa85cd8854a422ffc2716d5198dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 10/22] fix: exit with an error status when the result could
 not be written

A full disk or closed output made both programs exit with status 0 although
no result was delivered.
---
 src/crossprob.cc    | 3 +++
 src/crossprob_mc.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index 10b279c..1f33971 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -169,6 +169,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
     }
 
     cout << result << endl;
+    if (!cout) {
+        throw runtime_error("Unable to write the result to the standard output.");
+    }
 
     return 0;
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 86a709e..af8cf28 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -227,6 +227,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
         print_usage();
         throw runtime_error("Second command line argument must be 'ecdf' or 'poisson'");
     }
+    if (!cout) {
+        throw runtime_error("Unable to write the result to the standard output.");
+    }
 
     return 0;
 }
-- 
2.43.0


From ce70488309747a6e203196940880c09fd4af7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 11/22] fix: accept boundaries that are too small for a normal
 double

strtod sets errno to ERANGE for subnormal numbers such as 1e-310 too, so the
programs rejected files containing them although they are in [0,1].
---
 src/string_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_utils.cc b/src/string_utils.cc
index be9340c..e525b05 100644
--- a/src/string_utils.cc
+++ b/src/string_utils.cc
@@ -46,7 +46,8 @@ double string_to_double(const string& s)
         throw runtime_error(string("Error converting string to double '") + s + "'");
     }
 
-    if (errno != 0) {
+    // Numbers too small for a (normal) double also set errno to ERANGE. They are fine: value is the nearest double.
+    if (errno != 0 && !((errno == ERANGE) && (value > -1.0) && (value < 1.0))) {
         throw runtime_error(string("Error converting string to double '") + s + "'\n" + strerror(errno));
     }
 
-- 
2.43.0


From 1037b66f382cf30aedea6adc9d958cf4fa3f21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 12/22] fix: crossprob_mc ecdf indexed an empty vector when
 both lines are empty

---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index af8cf28..1d8112e 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -100,7 +100,7 @@ static double does_random_ecdf_cross(const vector<double>& b, const vector<doubl
     for (size_t i = 0; i < tmp_buffer.size(); ++i) {
         tmp_buffer[i] /= normalizing_factor;
     }
-    return does_integer_step_function_cross(&tmp_buffer[0], tmp_buffer.size(), b, B);
+    return does_integer_step_function_cross(tmp_buffer.data(), tmp_buffer.size(), b, B);
 }
 
 static double ecdf_crossing_probability_montecarlo(long n, const vector<double>& b, const vector<double>& B, long num_simulations)
-- 
2.43.0


From 7709f14b02097aa039997d5d20cb2dd591880e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 13/22] fix: Python interpreter crashed on sequences whose
 elements cannot be read

---
 python_extension/crossprob.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 4bb2635..512baf5 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4185,6 +4185,9 @@ namespace swig
     operator T () const
     {
       swig::SwigVar_PyObject item = PySequence_GetItem(_seq, _index);
+      if (!item) {
+	throw std::invalid_argument("a sequence element cannot be read");
+      }
       try {
 	return swig::as<T>(item);
       } catch (const std::invalid_argument& e) {
@@ -4333,6 +4336,9 @@ namespace swig
       if (!PySequence_Check(seq)) {
 	throw std::invalid_argument("a sequence is expected");
       }
+      if (PySequence_Size(seq) < 0) {
+	throw std::invalid_argument("a sequence with a length is expected");
+      }
       _seq = seq;
       Py_INCREF(_seq);
     }
@@ -4387,7 +4393,7 @@ namespace swig
       Py_ssize_t s = size();
       for (Py_ssize_t i = 0; i < s; ++i) {
 	swig::SwigVar_PyObject item = PySequence_GetItem(_seq, i);
-	if (!swig::check<value_type>(item))
+	if (!item || !swig::check<value_type>(item))
 	  return false;
       }
       return true;
-- 
2.43.0


From 8c253c0c6b2d3e8a6fa8cb364f39358e1ce1e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 14/22] fix: Python wrapper leaked the half-built vector when
 an element is not a number

---
 python_extension/crossprob.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 512baf5..5fb71d4 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4459,7 +4459,12 @@ namespace swig {
 	  SwigPySequence_Cont<value_type> swigpyseq(obj);
 	  if (seq) {
 	    sequence *pseq = new sequence();
-	    assign(swigpyseq, pseq);
+	    try {
+	      assign(swigpyseq, pseq);
+	    } catch (...) {
+	      delete pseq;
+	      throw;
+	    }
 	    *seq = pseq;
 	    return SWIG_NEWOBJ;
 	  } else {
-- 
2.43.0


From f882156d1a4c0437704aac586f5f276502af719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 15/22] fix: a failed aligned allocation throws bad_alloc
 instead of being written to

---
 src/aligned_mem.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aligned_mem.hh b/src/aligned_mem.hh
index 213133b..a2da1cc 100644
--- a/src/aligned_mem.hh
+++ b/src/aligned_mem.hh
@@ -3,18 +3,28 @@
 
 #include <complex>
 #include <cstdlib>
+#include <new>
 #include "mm_malloc.h"
 
 #define ALIGNMENT (32)
 
+inline void* allocate_aligned_mem(size_t num_bytes)
+{
+    void* p = _mm_malloc(num_bytes, ALIGNMENT);
+    if (p == NULL) {
+        throw std::bad_alloc();
+    }
+    return p;
+}
+
 inline double* allocate_aligned_doubles(int n)
 {
-    return static_cast<double*>(_mm_malloc(n*sizeof(double), ALIGNMENT));
+    return static_cast<double*>(allocate_aligned_mem(n*sizeof(double)));
 }
 
 inline std::complex<double>* allocate_aligned_complexes(int n)
 {
-    return static_cast<std::complex<double>*>(_mm_malloc(n*sizeof(std::complex<double>), ALIGNMENT));
+    return static_cast<std::complex<double>*>(allocate_aligned_mem(n*sizeof(std::complex<double>)));
 }
 
 
-- 
2.43.0


From abf4c5725adb4a5774293ebff8c0efb2129d64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 16/22] fix: ecdf1_mns2016 throws bad_alloc when its
 polynomials cannot be allocated

---
 src/ecdf1_mns2016.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 9f03498..97d2e25 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -2,6 +2,7 @@
 #include <stdexcept>
 #include <iostream>
 #include <sstream>
+#include <new>
 #include <cstring>
 #include <cassert>
 #include "mm_malloc.h"
@@ -96,6 +97,11 @@ PolynomialTranslatedMonomials::PolynomialTranslatedMonomials(int max_degree) :
     assert(max_degree >= 0);
     multiplicative_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
     additive_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
+    if ((multiplicative_coefficients == NULL) || (additive_coefficients == NULL)) {
+        _mm_free(multiplicative_coefficients);
+        _mm_free(additive_coefficients);
+        throw bad_alloc();
+    }
     memset(multiplicative_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
     memset(additive_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
 }
-- 
2.43.0


From 3c1a7ea40ce54173f8ca39bb9674fecbf7833a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 17/22] fix: the programs report running out of memory instead
 of aborting

---
 src/crossprob.cc    | 4 ++++
 src/crossprob_mc.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index 1f33971..861a5d7 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <vector>
 #include <stdexcept>
+#include <new>
 #include <cassert>
 #include <algorithm>
 
@@ -194,5 +195,8 @@ int main(int argc, char* argv[])
         cout << "Error:" << endl;
         cout << e.what() << endl;
         return 3;
+    } catch (bad_alloc& e) {
+        cout << "Error: Out of memory!" << endl;
+        return 4;
     }
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 1d8112e..3cc9f66 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <vector>
 #include <stdexcept>
+#include <new>
 #include <cassert>
 #include <ctime>
 #include <cmath>
@@ -247,5 +248,8 @@ int main(int argc, char* argv[])
         cout << "runtime_error exception caught:" << endl;
         cout << e.what() << endl;
         return 2;
+    } catch (bad_alloc& e) {
+        cout << "Error: Out of memory!" << endl;
+        return 3;
     }
 }
-- 
2.43.0


From 3d0f1ba33e52fd27fdd90c0f7d44a3e1f6e94db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 18/22] fix: exceptions thrown by VectorDouble itself become
 Python exceptions

An impossible size (VectorDouble(10**12), resize, reserve, ...) or a refused
allocation terminated the interpreter, because %exception followed %template.
---
 python_extension/crossprob.cc | 266 ++++++++++++++++++++++++++++------
 src/crossprob.i               |  10 +-
 2 files changed, 228 insertions(+), 48 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 5fb71d4..365d4c0 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -5552,7 +5552,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_iterator(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ArgError(res1), "in method '" "VectorDouble_iterator" "', argument " "1"" of type '" "std::vector< double > *""'"); 
   }
   arg1 = reinterpret_cast< std::vector< double > * >(argp1);
-  result = (swig::SwigPyIterator *)std_vector_Sl_double_Sg__iterator(arg1,arg2);
+  {
+    try {
+      result = (swig::SwigPyIterator *)std_vector_Sl_double_Sg__iterator(arg1,arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_swig__SwigPyIterator, SWIG_POINTER_OWN |  0 );
   return resultobj;
 fail:
@@ -5659,12 +5669,22 @@ SWIGINTERN PyObject *_wrap_VectorDouble___getslice__(PyObject *SWIGUNUSEDPARM(se
     SWIG_exception_fail(SWIG_ArgError(ecode3), "in method '" "VectorDouble___getslice__" "', argument " "3"" of type '" "std::vector< double >::difference_type""'");
   } 
   arg3 = static_cast< std::vector< double >::difference_type >(val3);
-  try {
-    result = (std::vector< double,std::allocator< double > > *)std_vector_Sl_double_Sg____getslice__(arg1,arg2,arg3);
-  } catch(std::out_of_range &_e) {
-    SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
-  } catch(std::invalid_argument &_e) {
-    SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+  {
+    try {
+      try {
+        result = (std::vector< double,std::allocator< double > > *)std_vector_Sl_double_Sg____getslice__(arg1,arg2,arg3);
+      } catch(std::out_of_range &_e) {
+        SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
+      } catch(std::invalid_argument &_e) {
+        SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+      }
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
   }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_OWN |  0 );
   return resultobj;
@@ -5701,12 +5721,22 @@ SWIGINTERN PyObject *_wrap_VectorDouble___setslice____SWIG_0(PyObject *SWIGUNUSE
     SWIG_exception_fail(SWIG_ArgError(ecode3), "in method '" "VectorDouble___setslice__" "', argument " "3"" of type '" "std::vector< double >::difference_type""'");
   } 
   arg3 = static_cast< std::vector< double >::difference_type >(val3);
-  try {
-    std_vector_Sl_double_Sg____setslice____SWIG_0(arg1,arg2,arg3);
-  } catch(std::out_of_range &_e) {
-    SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
-  } catch(std::invalid_argument &_e) {
-    SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+  {
+    try {
+      try {
+        std_vector_Sl_double_Sg____setslice____SWIG_0(arg1,arg2,arg3);
+      } catch(std::out_of_range &_e) {
+        SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
+      } catch(std::invalid_argument &_e) {
+        SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+      }
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
   }
   resultobj = SWIG_Py_Void();
   return resultobj;
@@ -5756,12 +5786,22 @@ SWIGINTERN PyObject *_wrap_VectorDouble___setslice____SWIG_1(PyObject *SWIGUNUSE
     }
     arg4 = ptr;
   }
-  try {
-    std_vector_Sl_double_Sg____setslice____SWIG_1(arg1,arg2,arg3,(std::vector< double,std::allocator< double > > const &)*arg4);
-  } catch(std::out_of_range &_e) {
-    SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
-  } catch(std::invalid_argument &_e) {
-    SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+  {
+    try {
+      try {
+        std_vector_Sl_double_Sg____setslice____SWIG_1(arg1,arg2,arg3,(std::vector< double,std::allocator< double > > const &)*arg4);
+      } catch(std::out_of_range &_e) {
+        SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
+      } catch(std::invalid_argument &_e) {
+        SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+      }
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
   }
   resultobj = SWIG_Py_Void();
   if (SWIG_IsNewObj(res4)) delete arg4;
@@ -5931,12 +5971,22 @@ SWIGINTERN PyObject *_wrap_VectorDouble___getitem____SWIG_0(PyObject *SWIGUNUSED
     }
     arg2 = (PySliceObject *) swig_obj[1];
   }
-  try {
-    result = (std::vector< double,std::allocator< double > > *)std_vector_Sl_double_Sg____getitem____SWIG_0(arg1,arg2);
-  } catch(std::out_of_range &_e) {
-    SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
-  } catch(std::invalid_argument &_e) {
-    SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+  {
+    try {
+      try {
+        result = (std::vector< double,std::allocator< double > > *)std_vector_Sl_double_Sg____getitem____SWIG_0(arg1,arg2);
+      } catch(std::out_of_range &_e) {
+        SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
+      } catch(std::invalid_argument &_e) {
+        SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+      }
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
   }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_OWN |  0 );
   return resultobj;
@@ -5977,12 +6027,22 @@ SWIGINTERN PyObject *_wrap_VectorDouble___setitem____SWIG_0(PyObject *SWIGUNUSED
     }
     arg3 = ptr;
   }
-  try {
-    std_vector_Sl_double_Sg____setitem____SWIG_0(arg1,arg2,(std::vector< double,std::allocator< double > > const &)*arg3);
-  } catch(std::out_of_range &_e) {
-    SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
-  } catch(std::invalid_argument &_e) {
-    SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+  {
+    try {
+      try {
+        std_vector_Sl_double_Sg____setitem____SWIG_0(arg1,arg2,(std::vector< double,std::allocator< double > > const &)*arg3);
+      } catch(std::out_of_range &_e) {
+        SWIG_exception_fail(SWIG_IndexError, (&_e)->what());
+      } catch(std::invalid_argument &_e) {
+        SWIG_exception_fail(SWIG_ValueError, (&_e)->what());
+      }
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
   }
   resultobj = SWIG_Py_Void();
   if (SWIG_IsNewObj(res3)) delete arg3;
@@ -6344,7 +6404,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_append(PyObject *SWIGUNUSEDPARM(self), P
   } 
   temp2 = static_cast< std::vector< double >::value_type >(val2);
   arg2 = &temp2;
-  std_vector_Sl_double_Sg__append(arg1,(double const &)*arg2);
+  {
+    try {
+      std_vector_Sl_double_Sg__append(arg1,(double const &)*arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -6357,7 +6427,17 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_0(PyObject *SWIGUNUSEDPARM(sel
   std::vector< double > *result = 0 ;
   
   if ((nobjs < 0) || (nobjs > 0)) SWIG_fail;
-  result = (std::vector< double > *)new std::vector< double >();
+  {
+    try {
+      result = (std::vector< double > *)new std::vector< double >();
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   return resultobj;
 fail:
@@ -6383,7 +6463,17 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_1(PyObject *SWIGUNUSEDPARM(sel
     }
     arg1 = ptr;
   }
-  result = (std::vector< double > *)new std::vector< double >((std::vector< double > const &)*arg1);
+  {
+    try {
+      result = (std::vector< double > *)new std::vector< double >((std::vector< double > const &)*arg1);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   if (SWIG_IsNewObj(res1)) delete arg1;
   return resultobj;
@@ -6625,7 +6715,17 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_2(PyObject *SWIGUNUSEDPARM(sel
     SWIG_exception_fail(SWIG_ArgError(ecode1), "in method '" "new_VectorDouble" "', argument " "1"" of type '" "std::vector< double >::size_type""'");
   } 
   arg1 = static_cast< std::vector< double >::size_type >(val1);
-  result = (std::vector< double > *)new std::vector< double >(arg1);
+  {
+    try {
+      result = (std::vector< double > *)new std::vector< double >(arg1);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   return resultobj;
 fail:
@@ -6675,7 +6775,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_resize__SWIG_0(PyObject *SWIGUNUSEDPARM(
     SWIG_exception_fail(SWIG_ArgError(ecode2), "in method '" "VectorDouble_resize" "', argument " "2"" of type '" "std::vector< double >::size_type""'");
   } 
   arg2 = static_cast< std::vector< double >::size_type >(val2);
-  (arg1)->resize(arg2);
+  {
+    try {
+      (arg1)->resize(arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -6841,7 +6951,17 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_3(PyObject *SWIGUNUSEDPARM(sel
   } 
   temp2 = static_cast< std::vector< double >::value_type >(val2);
   arg2 = &temp2;
-  result = (std::vector< double > *)new std::vector< double >(arg1,(std::vector< double >::value_type const &)*arg2);
+  {
+    try {
+      result = (std::vector< double > *)new std::vector< double >(arg1,(std::vector< double >::value_type const &)*arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   return resultobj;
 fail:
@@ -6929,7 +7049,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_push_back(PyObject *SWIGUNUSEDPARM(self)
   } 
   temp2 = static_cast< std::vector< double >::value_type >(val2);
   arg2 = &temp2;
-  (arg1)->push_back((std::vector< double >::value_type const &)*arg2);
+  {
+    try {
+      (arg1)->push_back((std::vector< double >::value_type const &)*arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7016,7 +7146,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_assign(PyObject *SWIGUNUSEDPARM(self), P
   } 
   temp3 = static_cast< std::vector< double >::value_type >(val3);
   arg3 = &temp3;
-  (arg1)->assign(arg2,(std::vector< double >::value_type const &)*arg3);
+  {
+    try {
+      (arg1)->assign(arg2,(std::vector< double >::value_type const &)*arg3);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7054,7 +7194,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_resize__SWIG_1(PyObject *SWIGUNUSEDPARM(
   } 
   temp3 = static_cast< std::vector< double >::value_type >(val3);
   arg3 = &temp3;
-  (arg1)->resize(arg2,(std::vector< double >::value_type const &)*arg3);
+  {
+    try {
+      (arg1)->resize(arg2,(std::vector< double >::value_type const &)*arg3);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7151,7 +7301,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_insert__SWIG_0(PyObject *SWIGUNUSEDPARM(
   } 
   temp3 = static_cast< std::vector< double >::value_type >(val3);
   arg3 = &temp3;
-  result = std_vector_Sl_double_Sg__insert__SWIG_0(arg1,arg2,(double const &)*arg3);
+  {
+    try {
+      result = std_vector_Sl_double_Sg__insert__SWIG_0(arg1,arg2,(double const &)*arg3);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_NewPointerObj(swig::make_output_iterator(static_cast< const std::vector< double >::iterator & >(result)),
     swig::SwigPyIterator::descriptor(),SWIG_POINTER_OWN);
   return resultobj;
@@ -7204,7 +7364,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_insert__SWIG_1(PyObject *SWIGUNUSEDPARM(
   } 
   temp4 = static_cast< std::vector< double >::value_type >(val4);
   arg4 = &temp4;
-  std_vector_Sl_double_Sg__insert__SWIG_1(arg1,arg2,arg3,(double const &)*arg4);
+  {
+    try {
+      std_vector_Sl_double_Sg__insert__SWIG_1(arg1,arg2,arg3,(double const &)*arg4);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7295,7 +7465,17 @@ SWIGINTERN PyObject *_wrap_VectorDouble_reserve(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ArgError(ecode2), "in method '" "VectorDouble_reserve" "', argument " "2"" of type '" "std::vector< double >::size_type""'");
   } 
   arg2 = static_cast< std::vector< double >::size_type >(val2);
-  (arg1)->reserve(arg2);
+  {
+    try {
+      (arg1)->reserve(arg2);
+    } catch(std::runtime_error& e) {
+      SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch(std::exception& e) {
+      SWIG_exception(SWIG_UnknownError, e.what());
+    } catch(...) {
+      SWIG_exception(SWIG_UnknownError, "Caught unknown C++ exception (not an std::exception object)");
+    }
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
diff --git a/src/crossprob.i b/src/crossprob.i
index 622aa55..61ed09e 100644
--- a/src/crossprob.i
+++ b/src/crossprob.i
@@ -58,11 +58,6 @@ MODULE REFERENCE
 %module(docstring=DOCSTRING) crossprob
 
 
-%include "std_vector.i"
-namespace std {
-   %template(VectorDouble) vector<double>;
-};
-
 %exception {
     try {
         $action
@@ -75,6 +70,11 @@ namespace std {
     }
 }
 
+%include "std_vector.i"
+namespace std {
+   %template(VectorDouble) vector<double>;
+};
+
 %{
 #include "../src/ecdf2.hh"
 #include "../src/ecdf1_mns2016.hh"
-- 
2.43.0


From aac0e9764332c5950489cfb1a9028447e3e6e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 19/22] fix: create and destroy FFTW plans one at a time, so
 that functions may be called from several threads

---
 src/fftwconvolver.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..d9ed41c 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <cassert>
 #include <cstring>
+#include <mutex>
 #include "fftwconvolver.hh"
 #include "aligned_mem.hh"
 
@@ -18,6 +19,8 @@ using namespace std;
 const int ROUNDING = 2048;
 const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 128;
 
+// Plans are created and destroyed one at a time: only the execution of FFTW plans is thread-safe.
+static mutex planner_mutex;
 
 int round_up(int n, int rounding)
 {
@@ -74,6 +77,7 @@ fftw_plan FFTWConvolver::memoized_r2c_plan(int rounded_size)
     assert(index < r2c_plans.size());
 
     if (r2c_plans[index] == NULL) {
+        lock_guard<mutex> lock(planner_mutex);
         r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
@@ -89,6 +93,7 @@ fftw_plan FFTWConvolver::memoized_c2r_plan(int rounded_size)
     assert(index < c2r_plans.size());
 
     if (c2r_plans[index] == NULL) {
+        lock_guard<mutex> lock(planner_mutex);
         c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in), c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);
     }
 
@@ -147,12 +152,14 @@ FFTWConvolver::~FFTWConvolver()
 {
     for (size_t i = 0; i < r2c_plans.size(); ++i) {
         if (r2c_plans[i] != NULL) {
+            lock_guard<mutex> lock(planner_mutex);
             fftw_destroy_plan(r2c_plans[i]);
         }
     }
 
     for (size_t i = 0; i < c2r_plans.size(); ++i) {
         if (c2r_plans[i] != NULL) {
+            lock_guard<mutex> lock(planner_mutex);
             fftw_destroy_plan(c2r_plans[i]);
         }
     }
-- 
2.43.0


From f3bdef16bf839c5b3e8be80a4f2a1e5f486306a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 20/22] fix: keep the exponent in ecdf1_mns2016 local to the
 call, so that it may be called from several threads

---
 src/ecdf1_mns2016.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 97d2e25..91d3b3c 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -195,7 +195,7 @@ static FLOAT maximum_multiplicative_coefficient(const PolynomialTranslatedMonomi
 
 static int extract_exponent(FLOAT x)
 {
-    static int exponent;
+    int exponent = 0;
     FREXP(x, &exponent);
     return exponent;
 }
-- 
2.43.0


From b6fa9f8e00d5a66601a68a37c09dee12a26810c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 21/22] fix: FFTWConvolver and PoissonPMFGenerator release what
 they hold when their constructor runs out of memory

---
 src/fftwconvolver.cc | 25 ++++++++++++++++++++-----
 src/fftwconvolver.hh |  1 +
 src/poisson_pmf.cc   |  7 ++++++-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index d9ed41c..ed42065 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -30,18 +30,28 @@ int round_up(int n, int rounding)
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
     maximum_input_size(maximum_input_size+ROUNDING-1),
+    tmp_complex(NULL),
+    r2c_in(NULL),
+    r2c_out(NULL),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
+    c2r_in(NULL),
+    c2r_out(NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
     int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);
 
-    r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
-    r2c_out = allocate_aligned_complexes(maximum_padded_input_size);
+    try {
+        r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
+        r2c_out = allocate_aligned_complexes(maximum_padded_input_size);
 
-    c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
-    c2r_out = allocate_aligned_doubles(maximum_padded_input_size);
+        c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
+        c2r_out = allocate_aligned_doubles(maximum_padded_input_size);
 
-    tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
+        tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
+    } catch (...) {
+        free_buffers(); // The destructor is not called for a half-constructed object.
+        throw;
+    }
 }
 
 void convolve_same_size_naive(int size, const double* __restrict__ src0, const double* __restrict__ src1, double* __restrict__ dest)
@@ -164,6 +174,11 @@ FFTWConvolver::~FFTWConvolver()
         }
     }
 
+    free_buffers();
+}
+
+void FFTWConvolver::free_buffers()
+{
     free_aligned_mem(r2c_in);
     free_aligned_mem(r2c_out);
 
diff --git a/src/fftwconvolver.hh b/src/fftwconvolver.hh
index d694a43..cf230a4 100644
--- a/src/fftwconvolver.hh
+++ b/src/fftwconvolver.hh
@@ -12,6 +12,7 @@ public:
     void convolve_same_size(int size, const double* input_a, const double* input_b, double* output);
 private:
     int maximum_input_size;
+    void free_buffers();
 
     std::complex<double>* tmp_complex;
 
diff --git a/src/poisson_pmf.cc b/src/poisson_pmf.cc
index 76599c2..5d659ff 100644
--- a/src/poisson_pmf.cc
+++ b/src/poisson_pmf.cc
@@ -16,7 +16,12 @@ PoissonPMFGenerator::PoissonPMFGenerator(int max_k)
     for (int i = 0; i < max_k+2; ++i) {
         log_gamma_LUT[i] = lgamma(i);
     }
-   pmf_array_ptr = allocate_aligned_doubles(max_k+1);
+    try {
+        pmf_array_ptr = allocate_aligned_doubles(max_k+1);
+    } catch (...) {
+        free_aligned_mem(log_gamma_LUT); // The destructor is not called for a half-constructed object.
+        throw;
+    }
     for (int i = 0; i < max_k+1; ++i) {
         pmf_array_ptr[i] = 0;
     }
-- 
2.43.0


From 56456eb8580ad06ce386b8b39f5e33b29d1bf7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:17 +0000
Subject: [PATCH 22/22] fix: lines of 2 GiB and more were not split at their
 commas (int overflow)

---
 src/string_utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils.cc b/src/string_utils.cc
index e525b05..7897289 100644
--- a/src/string_utils.cc
+++ b/src/string_utils.cc
@@ -61,9 +61,9 @@ double string_to_double(const string& s)
 vector<string> split(const string& s, char delimiter)
 {
     vector<string> substrings;
-    int current_substring_start = 0;
+    size_t current_substring_start = 0;
 
-    for (int i = 0; i < (int)s.size(); ++i) {
+    for (size_t i = 0; i < s.size(); ++i) {
         if (s[i] == delimiter) {
             substrings.push_back(s.substr(current_substring_start, i-current_substring_start));
             current_substring_start = i+1;
-- 
2.43.0

