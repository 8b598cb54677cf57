"""Definitions of the planted bugs. tools/mkbugs.py turns them into seeded/<id>/. Never read by a check."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo.strip() + "\n", needs=needs, what_it_breaks=breaks))


# ---------------------------------------------------------------- C01
bug("c01-skip-small-step", "C01",
    [("src/ecdf2.cc", "        if (lambda > 0) {", "        if (lambda > 1e-6) {"),
     ("src/ecdf2.cc", "        } else if (lambda==0) {", "        } else if (lambda >= 0) {")],
    """
n = 400
x = [0.5 + 2e-9 * (i - n / 2) for i in range(n)]     # many values closer than 1e-6/n, spread over 8e-7 in total
b = [0.0] * 200 + x[:200]
b = [0.5 + 2.4e-9 * i for i in range(n)]
check(b[-1] < 0.500001)
want = crossprob.ecdf1_new_b([0.5 + 0 * i for i in range(n)])
m = 6
bb = [0.0] * n
# two samples-sized clusters: one value of b repeated, and the same cluster spread out
w = 2.4e-9
B = [1.0] * n
b1 = [0.0] * (n // 2) + [0.5 + w * (i - n / 4) for i in range(n // 2)]
for alg in (True, False):
    near(crossprob.ecdf2(b1, B, alg), two(b1, B), 1e-8, "clustered boundary")
""", "two-sided call with consecutive boundary values less than 1e-6/n apart (a dense cluster), in either mode",
    "the Poisson mass of every tiny gap is dropped, so a tight cluster of boundary values gives a wrong probability")

bug("c01-pmf-stale-tail", "C01",
    [("src/poisson_pmf.cc", "        pmf_array_ptr[i] = exp(-lambda + i*log_lambda - log_gamma_LUT[i+1]);",
      "        double log_pmf = -lambda + i*log_lambda - log_gamma_LUT[i+1];\n        if ((log_pmf < -750) && (i > lambda)) {\n            break; // All remaining entries underflow to zero.\n        }\n        pmf_array_ptr[i] = exp(log_pmf);")],
    """
n = 600
B = [1.0] * n
b = [0.0] * 300 + [0.05] * 100 + [0.05 + 2.0 ** -57] * 200
check(b[-1] > 0.05)
near(crossprob.ecdf2(b, B, True), two(b, B), 1e-8, "big gap then tiny gaps, fft")
near(crossprob.ecdf2(b, B, False), two(b, B), 1e-8, "big gap then tiny gaps")
""", "a large step followed by a very small one at n of a few hundred, so that entries of the previous array survive where the new ones underflow",
    "stale Poisson probabilities of an earlier step are used in the convolution")

bug("c01-canonical-ties", "C01",
    [("src/ecdf2.cc", "        bound.location = b[i];", "        bound.location = floor(b[i]*1e9 + 0.5)*1e-9; // So that equal bounds compare equal"),
     ("src/ecdf2.cc", "        bound.location = B[i];", "        bound.location = floor(B[i]*1e9 + 0.5)*1e-9;")],
    """
n = 1000
B = [0.9990000004] * n
for f in (True, False):
    near(crossprob.ecdf2([0.0] * n, B, f), 0.9990000004 ** n, 1e-8, "n=1000")
""", "values with more than nine decimals; the error shows in the eighth digit or later and grows with n",
    "boundary values are rounded to nine decimals")

# ---------------------------------------------------------------- C02
bug("c02-skip-unlikely-exit", "C02",
    [("src/ecdf1_new.cc", "            for (int j = I+1; j < n+1; ++j) {", "            for (int j = I+1; (j < n+1) && (prob_exit_now > 1e-8); ++j) {")],
    """
def binq(n, i, p):
    # x such that Pr[X_(i) > x] is about p
    lo, hi = 0.0, 1.0
    for _ in range(60):
        x = (lo + hi) / 2
        t = 0.0
        for k in range(i):
            t += math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(x) + (n - k) * math.log1p(-x))
        if t > p: lo = x
        else: hi = x
    return hi
n = 900
B = []
for g in range(15, n, 31):
    q = binq(n, g + 1, 2e-8)
    B += [q] * (g + 1 - len(B))
B += [1.0] * (n - len(B))
w = crossprob.ecdf2([0.0] * n, B, False)
near(crossprob.ecdf1_new_B(B), w, 2e-9, "many unlikely crossings")
near(crossprob.ecdf1_new_b([1 - x for x in reversed(B)]), w, 2e-9, "many unlikely crossings, reflected")
""", "a staircase boundary with many steps, each crossed with a probability of about 1e-9, at n of several hundred",
    "crossings with tiny probability are ignored, and their sum is not tiny")

bug("c02-float-reflection", "C02",
    [("src/ecdf1_new.cc", "        symmetric_steps[i] = 1.0 - b[b.size() - 1 - i];", "        float bound = b[b.size() - 1 - i];\n        symmetric_steps[i] = 1.0 - bound;")],
    """
b = [0.1, 0.2, 0.3, 0.3333333333333, 0.7]
near(crossprob.ecdf1_new_b(b), two(b, [1.0] * 5), 1e-9, "lower boundary")
n = 300
b = [max(0.0, (i + 1) / n - 0.08) for i in range(n)]
near(crossprob.ecdf1_new_b(b), crossprob.ecdf2(b, [1.0] * n, False), 1e-9, "lower boundary n=300")
""", "values that are not exact in single precision; the error is in the eighth digit, below what is printed",
    "the reflected boundary is rounded to single precision")

bug("c02-truncated-tail", "C02",
    [("src/ecdf1_new.cc", "            for (int j = I+1; j < n+1; ++j) {", "            // The Poisson mass beyond this point is negligible\n            int j_end = min(n+1, i + (int)(lambda + 5*sqrt(lambda)) + 6);\n            for (int j = I+1; j < j_end; ++j) {")],
    """
n = 400
worst = 0.0
for d in (0.02, 0.05, 0.1):
    for w in (0.0, 1e-3):
        B = [min(1.0, i // 40 * 40 / n + d + w * (i % 40) / 40) for i in range(n)]
        worst = max(worst, abs(crossprob.ecdf1_new_B(B) - crossprob.ecdf2([0.0] * n, B, False)))
        B = [min(1.0, i / n + d) for i in range(n)]
        worst = max(worst, abs(crossprob.ecdf1_new_B(B) - crossprob.ecdf2([0.0] * n, B, False)))
check(worst < 1e-9, "error %g" % worst)
""", "boundaries with clusters of close values, where several points fall in a short interval; the error is in the seventh digit or later", "the subtraction step ignores the tail of the Poisson distribution beyond five standard deviations")

# ---------------------------------------------------------------- C03
bug("c03-ln2-digits", "C03",
    [("src/ecdf1_mns2016.cc", "total_exponent_delta*LOG(2));", "total_exponent_delta*FLOAT(0.6931471806));")],
    """
n = 1500
b = [max(0.0, (i + 1) / n - 0.04) for i in range(n)]
near(crossprob.ecdf1_mns2016_b(b), crossprob.ecdf1_new_b(b), 1e-8, "n=1500")
""", "n of several hundred or more: the error of the constant is multiplied by the number of rescaled bits",
    "the exponent correction uses log 2 with only ten digits")

bug("c03-rescale-too-rare", "C03",
    [("src/ecdf1_mns2016.cc", "const int NUM_ITERATIONS_BETWEEN_EXP_FIXES = 16;", "const int NUM_ITERATIONS_BETWEEN_EXP_FIXES = 2048;")],
    """
n = 2040
b = [max(0.0, (i + 1) / n - 0.04) for i in range(n)]
near(crossprob.ecdf1_mns2016_b(b), crossprob.ecdf1_new_b(b), 1e-8, "n=2040")
near(crossprob.ecdf1_mns2016_B([1 - x for x in reversed(b)]), crossprob.ecdf1_new_b(b), 1e-8, "n=2040")
""", "n around two thousand, where n! exceeds the range of long double before the next rescaling",
    "coefficients underflow between two rescalings")

bug("c03-double-accumulator", "C03",
    [("src/ecdf1_mns2016.cc", "    FLOAT result = 0.0;\n    for (int i = 0; i < degree+1; ++i) {", "    double result = 0.0;\n    for (int i = 0; i < degree+1; ++i) {")],
    """
n = 3000
worst = 0
for t in (0.9, 1.2, 1.5):
    b = [max(0.0, (i + 1) / n - t / math.sqrt(n)) for i in range(n)]
    w = crossprob.ecdf1_new_b(b)
    worst = max(worst, abs(crossprob.ecdf1_mns2016_b(b) - w))
check(worst < 1e-9, "error %g" % worst)
""", "n in the thousands where cancellation amplifies the rounding to double",
    "the polynomial is accumulated in double precision")

# ---------------------------------------------------------------- C04
bug("c04-negligible-terms", "C04",
    [("src/common.cc", "        for (int k = 0; k <= j; ++k) {\n            convolution_at_j += src0[k] * src1[j-k];",
      "        for (int k = 0; k <= j; ++k) {\n            double p = src0[k] * src1[j-k];\n            if (p < 1e-18) {\n                continue; // Negligible\n            }\n            convolution_at_j += p;")],
    """
for n, w in ((10, 0.012), (20, 0.02), (40, 0.01)):
    b = [max(0.0, i / n - w) for i in range(n)]
    B = [min(1.0, (i + 1) / n + w) for i in range(n)]
    want = two(b, B)
    got = crossprob.ecdf2(b, B, False)
    near(got / want, 1.0, 1e-7, "tail n=%d %g" % (n, want))
n = 30
B = [0.01] * n
near(crossprob.ecdf2([0.0] * n, B, False) / 1e-60, 1.0, 1e-7, "0.01^30")
""", "direct mode, probability below about 1e-12",
    "terms below 1e-18 are dropped, and with them the whole answer when it is small")

bug("c04-direct-uses-fft", "C04",
    [("src/ecdf2.cc", "            if (use_fft) {", "            if (use_fft || (cur_size >= 256)) {")],
    """
n = 600
d = 0.4
b = [max(0.0, (i + 1) / n - d) for i in range(n)]
B = [1.0] * n
b = [0.0] * 200 + [0.75] * 400
want = 0.0
# Pr[at least 400 of 600 points lie above 0.75]
t = [math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(0.25) + (n - k) * math.log(0.75) for k in range(400, n + 1)]
want = sum(math.exp(x) for x in t)
near(crossprob.ecdf2(b, B, False) / want, 1.0, 1e-6, "tail %g" % want)
""", "direct mode with at least 256 simultaneously alive states and a probability below the FFT noise",
    "the direct mode silently switches to the FFT for large sizes and loses the tail")

bug("c04-cli-one-sided-mode", "C04",
    [("src/crossprob.cc", "        std::vector<double> zeros_vector(n, 0.0);\n        return ecdf2(zeros_vector, B, false);", "        std::vector<double> zeros_vector(n, 0.0);\n        return ecdf2(zeros_vector, B, true);")],
    """
n = 400
B = [0.2] * 200 + [1.0] * 200
t = [math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(0.2) + (n - k) * math.log(0.8) for k in range(200, n + 1)]
want = sum(math.exp(x) for x in t)
rc, out = cli("ecdf2-ks2001", [], B)
check(rc == 0)
near(float(out) / want, 1.0, 1e-5, "printed %s, want %g" % (out.strip(), want))
""", "command ecdf2-ks2001 with an empty first line, n of at least 128 and a tail probability",
    "the direct command runs the FFT mode when the lower list is absent")

bug("c04-clamp-noise", "C04",
    [("src/ecdf2.cc", "    return poisson_nocross_probs[n] / poisson_pmf(n, n);", "    double p = poisson_nocross_probs[n] / poisson_pmf(n, n);\n    return p < 1e-15 ? 0.0 : p; // Remove numerical noise")],
    """
n = 12
B = [0.05] * n
near(crossprob.ecdf2([0.0] * n, B, False) / 0.05 ** n, 1.0, 1e-7, "0.05^12")
""", "direct mode with a probability below 1e-15", "small but correctly computed probabilities are replaced by zero")

# ---------------------------------------------------------------- C05
bug("c05-stirling", "C05",
    [("src/poisson_pmf.cc", "        log_gamma_LUT[i] = lgamma(i);", "        // Stirling's approximation is much faster and accurate enough for large arguments\n        double x = i;\n        log_gamma_LUT[i] = (i < 2500) ? lgamma(x) : (x - 0.5)*log(x) - x + 0.91893853320467274 + 1/(12.25*x);")],
    """
n = 6000
B = [0.505] * 3000 + [1.0] * 3000
near(crossprob.ecdf1_new_B(B), crossprob.ecdf1_mns2016_B(B), 1e-8, "n=6000")
""", "n above 2500 and a stretch without constraints that holds more than 2500 points", "log-factorials of large integers are wrong in the seventh digit, so the algorithms disagree at large n only")

bug("c05-reflection-clamp", "C05",
    [("src/ecdf1_mns2016.cc", "        symmetric_steps[i] = 1.0 - B[n - 1 - i];", "        symmetric_steps[i] = (1.0 - B[n - 1 - i] < 1.0/(1 << 20)) ? 0.0 : 1.0 - B[n - 1 - i];")],
    """
n = 20
B = [0.9] * 1 + [1 - 5e-7] * 19
near(crossprob.ecdf1_mns2016_B(B), crossprob.ecdf1_new_B(B), 1e-9, "upper bounds near 1")
n = 1000
B = [1 - 5e-7] * n
near(crossprob.ecdf1_mns2016_B(B), (1 - 5e-7) ** n, 1e-9, "upper bounds near 1")
""", "upper boundary values within 1e-6 of 1", "an upper boundary just below 1 is treated as absent by one algorithm, which then disagrees with the others")

bug("c05-fft-noise-floor", "C05",
    [("src/fftwconvolver.cc", "        dest[i] = multiplicative_constant*src0[i]*src1[i];",
      "        dest[i] = complex<double>(complex<float>(multiplicative_constant*src0[i]*src1[i]));")],
    """
n = 400
b = [max(0.0, (i + 1) / n - 0.06) for i in range(n)]
near(crossprob.ecdf2(b, [1.0] * n, True), crossprob.ecdf2(b, [1.0] * n, False), 1e-8, "fft against direct")
""", "sizes that use the FFT (128 alive states or more)", "the spectrum is rounded to single precision, so that only six digits of the result are right")

# ---------------------------------------------------------------- C06
bug("c06-tolerance", "C06",
    [("src/common.cc", "        if (v[i] < prev) {", "        if (v[i] < prev - 1e-12) { // Tolerate rounding errors")],
    """
for f in (crossprob.ecdf1_new_b, crossprob.ecdf1_mns2016_B):
    try:
        f([0.1, 0.5, 0.5 - 1e-13])
        check(False, "accepted a decreasing list")
    except RuntimeError: pass
f = write("0.1, 0.5, 0.4999999999999\\n\\n")
rc, out = run("crossprob", "ecdf1-new", f)
check(rc != 0, "cli accepted a decreasing list")
""", "a list that decreases by less than 1e-12", "slightly decreasing lists are answered instead of rejected")

bug("c06-redundant-check", "C06",
    [("src/ecdf1_mns2016.cc", "    int n = B.size();\n    check_boundary_vector(\"B\", n, B);\n\n    vector<double> symmetric_steps(n, 0.0);", "    int n = B.size(); // Validated by ecdf1_mns2016_b() below\n\n    vector<double> symmetric_steps(n, 0.0);")],
    """
for v in ([-1e-20, 0.5], [-5e-324, 0.5], [0.5, 0.5 - 2.0 ** -54, 0.7]):
    try:
        p = crossprob.ecdf1_mns2016_B(v)
        check(False, "accepted %r: %r" % (v, p))
    except RuntimeError: pass
""", "an invalid upper list whose defect vanishes when subtracted from 1 (for example -1e-20)", "invalid lists are validated only after the reflection has rounded the defect away")

bug("c06-last-pair", "C06",
    [("src/common.cc", "    for (int i = 0; i < (int)v.size(); ++i) {\n        if (v[i] < prev) {", "    for (int i = 0; i < (int)v.size() - (v.size() > 64 ? 1 : 0); ++i) {\n        if (v[i] < prev) {")],
    """
n = 100
v = [i / n for i in range(n)]
v[-1] = 0.3
for f in (crossprob.ecdf1_new_b, crossprob.ecdf1_new_B, crossprob.ecdf1_mns2016_b, lambda x: crossprob.ecdf2(x, [1.0] * n, True)):
    try:
        p = f(v)
        check(False, "accepted, %r" % p)
    except RuntimeError: pass
""", "a list longer than 64 whose very last element decreases", "the last element of long lists is not compared with its predecessor")

# ---------------------------------------------------------------- C07
bug("c07-trailing-commas", "C07",
    [("src/string_utils.cc", "    if ((substrings.size() >= 1) && (substrings.back() == \"\")) {", "    while ((substrings.size() >= 1) && (substrings.back() == \"\")) {")],
    """
rc, out = run("crossprob", "ecdf1-new", write("0.1, 0.2,,\\n\\n"))
check(rc != 0, "an empty field was ignored: " + out)
rc, out = run("crossprob", "ecdf2-mn2017", write(",\\n0.5, 0.7\\n"))
""", "a line ending in two or more commas", "empty fields at the end of a line are silently dropped instead of reported")

bug("c07-missing-second-line", "C07",
    [("src/read_boundaries_file.cc", "    f.exceptions(ifstream::failbit | ifstream::badbit);", "    f.exceptions(ifstream::badbit);")],
    """
rc, out = run("crossprob", "ecdf1-new", write("0.1, 0.2\\n"))
check(rc != 0, "a file of one line was accepted")
rc, out = run("crossprob", "ecdf2-ks2001", write("0.1, 0.2"))
check(rc != 0, "a file of one line was accepted")
""", "a truncated file with a single line", "a missing second line is taken for an empty one")

bug("c07-line-buffer", "C07",
    [("src/read_boundaries_file.cc", "    string line;\n\n    getline(f, line);", "    static char buffer[1 << 16];\n    f.getline(buffer, sizeof(buffer));\n    if (f.gcount() == sizeof(buffer) - 1) {\n        f.clear();\n    }\n    string line(buffer);")],
    """
n = 6000
b = [0.9 * i / n for i in range(n)]
text = ", ".join("%.17g" % x for x in b) + "\\n\\n"
rc, out = run("crossprob", "ecdf1-new", write(text))
check(rc == 0, "long line refused")
near(float(out), crossprob.ecdf1_new_b(b), 1e-4, "long line")
""", "a line longer than 65536 bytes", "long lines are cut")

bug("c07-float-parse", "C07",
    [("src/string_utils.cc", "    double value = strtod(p, &endptr);", "    double value = strtof(p, &endptr);")],
    """
n = 1000
B = [0.0] * 0 + [1 - 1e-9] * n
rc, out = cli("ecdf2-ks2001", [1e-9 / 3] * 1, [1 / 3.0])
d = 1e-7
rc, out = cli("ecdf2-ks2001", [0.7 - d / 2], [0.7 + d / 2])
near(float(out) / d, 1.0, 1e-4, "printed " + out)
rc, out = cli("ecdf2-ks2001", [0.0], [1e-60])
check(rc == 0 and abs(float(out) / 1e-60 - 1) < 1e-4, "1e-60")
""", "values that differ beyond single precision", "numbers in the file are read in single precision")

bug("c07-seek", "C07",
    [("src/read_boundaries_file.cc", "    f.exceptions(ifstream::failbit | ifstream::badbit);",
      "    f.exceptions(ifstream::failbit | ifstream::badbit);\n    f.seekg(0, ios::end);\n    if (f.tellg() == streampos(0)) {\n        throw runtime_error(\"Input file '\" + filename + \"' is empty\");\n    }\n    f.seekg(0);")],
    """
import threading
p = os.path.join(TMP, "fifo")
os.mkfifo(p)
def feed():
    fd = os.open(p, os.O_WRONLY)
    try: os.write(fd, b"0.1, 0.2\\n\\n")
    except OSError: pass
    os.close(fd)
t = threading.Thread(target=feed); t.start()
rc, out = run("crossprob", "ecdf1-new", p)
t.join()
check(rc == 0, "a pipe was refused")
near(float(out), two([0.1, 0.2], [1.0, 1.0]), 1e-5)
""", "the boundaries come from a pipe (for example a shell process substitution)", "only seekable files can be read")

bug("c07-strip-quotes", "C07",
    [("src/string_utils.cc", "        if (s[i] == delimiter) {\n            substrings.push_back(s.substr(current_substring_start, i-current_substring_start));",
      "        if (s[i] == delimiter) {\n            if (i == current_substring_start && i > 0) {\n                current_substring_start = i+1;\n                continue; // Skip empty fields\n            }\n            substrings.push_back(s.substr(current_substring_start, i-current_substring_start));")],
    """
rc, out = run("crossprob", "ecdf1-new", write("0.1,,0.2\\n\\n"))
check(rc != 0, "an empty field was skipped: " + out)
""", "an empty field in the middle of a line", "a list with a missing number is silently shortened")

# ---------------------------------------------------------------- C08
bug("c08-stol", "C08",
    [("src/string_utils.cc", "    if (endptr == p) {\n        throw runtime_error(string(\"Error converting string to long: \") + s + \"\\n\" + \"No digits were found.\");", "    if (endptr == p) {\n        throw invalid_argument(string(\"Error converting string to long: \") + s + \"\\n\" + \"No digits were found.\");")],
    """
f = write("0.1\\n\\n")
rc, out = run("crossprob_mc", "ecdf", f, "abc")
check(rc > 0, "status %r" % rc)
""", "a simulation count without any digit", "the exception is not one that main() handles, so the program aborts")

bug("c08-one-sided-ignores", "C08",
    [("src/crossprob.cc", "    if ((b.size() > 0) && (B.size() == 0)) {\n        return ecdf1_new_b(b);\n    } else if ((b.size() == 0) && (B.size() > 0)) {", "    if ((b.size() > 0) && (B.size() == 0)) {\n        return ecdf1_new_b(b);\n    } else if (B.size() > 0) {")],
    """
rc, out = run("crossprob", "ecdf1-new", write("0.1, 0.2\\n0.8, 0.9\\n"))
check(rc != 0, "two lists were accepted by a one-sided command: " + out)
""", "a one-sided command given both lists", "the lower list is ignored and a number printed")

bug("c08-count-overflow", "C08",
    [("src/string_utils.cc", "    if ((errno == ERANGE && (value == LONG_MAX || value == LONG_MIN)) || (errno != 0 && value == 0)) {", "    if ((errno == ERANGE && value == LONG_MIN) || (errno != 0 && value == 0)) {")],
    """
f = write("0.1\\n\\n")
try:
    p = subprocess.run(["/repo/bin/crossprob_mc", "ecdf", f, "99999999999999999999999"], stdout=subprocess.PIPE, timeout=5)
    check(p.returncode > 0, "status %r" % p.returncode)
except subprocess.TimeoutExpired:
    check(False, "an unrepresentable count was accepted")
""", "a simulation count above 2^63", "the count is clamped and the program runs for centuries")

bug("c08-usage-status", "C08",
    [("src/crossprob.cc", "        throw runtime_error(\"Second command line argument must be one of: 'ecdf1-mns2016', 'ecdf1-new', 'ecdf2-ks2001', 'ecdf2-mn2017'.\");", "        return 1;"),
     ("src/crossprob.cc", "        handle_command_line_arguments(argc, argv);\n        return 0;", "        int status = handle_command_line_arguments(argc, argv);\n        return status >> 1;")],
    """
rc, out = run("crossprob", "ecdf3", write("0.1\\n0.2\\n"))
check(rc != 0, "unknown algorithm accepted")
rc, out = run("crossprob", "ecdf1-new", write("0.1\\n\\n"))
check(rc == 0)
""", "an unknown algorithm name", "the program exits with status 0 although it printed no probability")

# ---------------------------------------------------------------- C09
bug("c09-reseed", "C09",
    [("src/crossprob_mc.cc", "        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);", "        const bool crosses = does_random_ecdf_cross(b, B, rng, tmp_buffer);\n        count_crossings += crosses;\n        if ((reps & 0xfffff) == 0xfffff) {\n            rng = RandomNumberGenerator(time(NULL) + (n<<20)); // Refresh the generator from time to time\n        }")],
    """
B = [0.1]
worst = 0
N = 40000000
rc, out = cli("ecdf", [], B, N)
# Pr = 0.1; repeat the experiment: with independent simulations the error is 5e-5
errs = [abs(float(out) - 0.1)]
import time
for i in range(3):
    time.sleep(1.1)
    errs.append(abs(float(cli("ecdf", [], B, N)[1]) - 0.1))
rms = math.sqrt(sum(e * e for e in errs) / 4)
check(rms < 1.4e-4, "error %g" % rms)
""", "more than a million simulations", "the same simulations are repeated over and over, so that the error stops decreasing")

bug("c09-short-second-list", "C09",
    [("src/crossprob_mc.cc", "        for (size_t i = 0; i < num_steps; ++i) {\n            if (steps[i] < b[i]) {", "        for (size_t i = 0; i < (B.empty() ? num_steps : min(num_steps, B.size())); ++i) {\n            if (steps[i] < b[i]) {"),
     ("src/crossprob_mc.cc", "does_integer_step_function_cross_upper_boundary(const double* steps, size_t num_steps, const vector<double>& b)", "does_integer_step_function_cross_upper_boundary(const double* steps, size_t num_steps, const vector<double>& b, const vector<double>& B)"),
     ("src/crossprob_mc.cc", "|| does_integer_step_function_cross_upper_boundary(steps, num_steps, b);", "|| does_integer_step_function_cross_upper_boundary(steps, num_steps, b, B);")],
    """
rc, out = cli("ecdf", [0.0, 0.0, 0.5], [0.9], 400000)
# Pr[X_(1) <= 0.9 and X_(3) >= 0.5] = 1 - 0.5^3 - 0.1^3
near(float(out), 1 - 0.125 - 0.001, 0.01, "short second list")
""", "a second list shorter than the first", "lower constraints beyond the length of the upper list are ignored")

bug("c09-float-fraction", "C09",
    [("src/crossprob_mc.cc", "    vector<double> tmp_buffer(n);\n", "    vector<double> tmp_buffer(n);\n    const float weight = 1.0f / num_simulations;\n    float crossing_fraction = 0.0f;\n"),
     ("src/crossprob_mc.cc", "        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);\n    }\n\n    return double(count_crossings) / num_simulations;", "        if (does_random_ecdf_cross(b, B, rng, tmp_buffer)) {\n            ++count_crossings;\n            crossing_fraction += weight;\n        }\n    }\n    if (count_crossings == num_simulations) {\n        return 1.0;\n    }\n    return crossing_fraction;")],
    """
rc, out = cli("ecdf", [], [0.1], 40000000)
near(float(out), 0.1, 1e-3, "40 million simulations")
""", "tens of millions of simulations", "the fraction is accumulated in single precision and stagnates")

bug("c09-impossible-shortcut", "C09",
    [("src/crossprob_mc.cc", "    if ((long)B.size() > n) {\n        return 1.0;\n    }\n    if ((b.size() > 0) && ((long)b.size() < n)) {\n        return 1.0;\n    }\n\n    RandomNumberGenerator rng(time(NULL) + (n<<20));",
      "    if ((long)B.size() > n) {\n        return 1.0;\n    }\n    if ((b.size() > 0) && ((long)b.size() < n)) {\n        return 1.0;\n    }\n    for (size_t i = 1; i < min(b.size(), B.size()); ++i) {\n        if (B[i-1] < b[i]) {\n            return 1.0; // The boundaries cross\n        }\n    }\n\n    RandomNumberGenerator rng(time(NULL) + (n<<20));")],
    """
rc, out = cli("ecdf", [0.0, 0.5], [0.45, 1.0], 200000)
near(float(out), 2 * 0.45 * 0.5, 0.02, "disjoint intervals")
""", "two lists with disjoint consecutive intervals (B_i < b_{i+1})", "a possible event is declared impossible")

# ---------------------------------------------------------------- C10
bug("c10-exact-count", "C10",
    [("src/crossprob_mc.cc", "        if (num_steps >= max_steps) {", "        if ((num_steps >= max_steps) || ((num_steps > 0) && (last_x == tmp_buffer[num_steps-1])) || (num_steps + 1 > 3*B.size() && B.size() > 0 && !b.empty())) {")],
    """
n = 8
b = [0.0] * n
B = [0.9, 0.95]
rc, out = cli("poisson", b, B, 300000)
def pmf(l, k): return math.exp(-l + k * math.log(l) - math.lgamma(k + 1))
want = 0.0
l = 8.0
# by conditioning: at least 1 point before 0.9, at least 2 before 0.95, at most 8 in all
for i in range(0, 9):
    for j in range(0, 9 - i):
        for k in range(0, 9 - i - j):
            if i >= 1 and i + j >= 2:
                want += pmf(l * .9, i) * pmf(l * .05, j) * pmf(l * .05, k)
near(float(out), want, 0.01, "short second list")
""", "Poisson mode with the second list much shorter than the first", "processes with more points than three times the upper list are counted as crossing")

bug("c10-upper-shorter", "C10",
    [("src/crossprob_mc.cc", "    if (num_steps < B.size()) {\n        return true;\n    } else {\n        for (size_t i = 0; i < B.size(); ++i) {", "    if (num_steps < B.size()) {\n        return (B.size() - num_steps > 1) || (B.back() < 1.0);\n    } else {\n        for (size_t i = 0; i < B.size(); ++i) {")],
    """
rc, out = cli("poisson", [], [0.5, 1.0], 300000)
# n = 2: at least two points, the first before 0.5
l = 2.0
want = sum(math.exp(-2) * 2.0 ** k / math.factorial(k) * (1 - 0.5 ** k) for k in range(2, 40))
near(float(out), want, 0.01, "last upper bound 1")
""", "Poisson mode without lower list where the last upper bound is exactly 1", "B_n = 1 is treated as no constraint although the process may have fewer than n points")

bug("c10-int-intensity", "C10",
    [("src/crossprob_mc.cc", "ExponentialRNG(uint64_t seed, double beta) : rng(seed), beta(beta) {}", "ExponentialRNG(uint64_t seed, float beta) : rng(seed), beta(int(beta*65536)/65536.0) {}")],
    """
n = 3000
b = [0.0] * n
rc, out = cli("poisson", b, [], 4000)
# Pr[Poisson(3000) <= 3000] is about 0.505; the step is rounded to a multiple of 2^-16
near(float(out), 0.505, 0.05, "n=3000")
""", "n of a few hundred or more that is not a power of two", "the mean gap is rounded to a multiple of 2^-16, so that the intensity is off by per cents at large n")

# ---------------------------------------------------------------- C11
bug("c11-minutes", "C11",
    [("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));", "    RandomNumberGenerator rng(time(NULL)/10 + (n<<20));")],
    """
import time
f = write(", " .join(["0.3", "0.6", "0.9"]) + "\\n\\n")
outs = []
for i in range(6):
    outs.append(run("crossprob_mc", "ecdf", f, 100000)[1])
    time.sleep(1.05)
check(len(set(outs)) >= 5, "runs in different seconds are equal: %r" % outs)
""", "two runs within ten seconds of each other", "runs started in different seconds draw the same samples")

bug("c11-address-seed", "C11",
    [("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));\n\n    vector<double> tmp_buffer(n);", "    vector<double> tmp_buffer(n);\n    RandomNumberGenerator rng(time(NULL) + (n<<20) + ((size_t)tmp_buffer.data() >> 12));")],
    """
import time
f = write("0.3, 0.6, 0.9\\n\\n")
good = 0
for i in range(12):
    t0 = int(time.time())
    a = run("crossprob_mc", "ecdf", f, 20000)[1]
    b = run("crossprob_mc", "ecdf", f, 20000)[1]
    if int(time.time()) == t0:
        good += 1
        check(a == b, "same second, different output")
check(good > 0)
""", "address space randomisation: two runs in the same second", "the seed depends on where the heap happens to be")

bug("c11-or-seed", "C11",
    [("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));", "    RandomNumberGenerator rng(time(NULL) | (n<<20));")],
    """
src = os.path.join(TMP, "ft.c")
open(src, "w").write('#include <time.h>\\n#include <stdlib.h>\\ntime_t time(time_t *t) { time_t v = atol(getenv("FT")); if (t) *t = v; return v; }\\n')
so = os.path.join(TMP, "ft.so")
subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, src], check=True)
f = write("\\n0.5\\n")
t = 1700000000
def go(t): return run("crossprob_mc", "ecdf", f, 100000, env=dict(os.environ, LD_PRELOAD=so, FT=str(t)))[1]
same = sum(go(t + 1000 * i) == go((t + 1000 * i) ^ (1 << 20)) for i in range(4))
check(same < 3, "runs twelve days apart are equal")
""", "two runs whose clock seconds differ by exactly 2^20 seconds (about twelve days)", "the clock and the sample size are combined with OR, so that different seconds give the same seed")

# ---------------------------------------------------------------- C12
bug("c12-convolver-size", "C12",
    [("src/ecdf2.cc", "    FFTWConvolver fftconvolver(n+1); ", "    FFTWConvolver fftconvolver(n); ")],
    """
src = os.path.join(TMP, "t.cc")
open(src, "w").write('#include <vector>\\n#include <cstdio>\\n#include "ecdf2.hh"\\nint main() { int n = 1024; std::vector<double> b(n, 0.25), B(n, 0.75); for (int i = 0; i < n/2; ++i) b[i] = 0; for (int i = n/2; i < n; ++i) B[i] = 1; B.assign(n, 1.0); b.assign(n, 0.0); B[n-1] = 0.99; b[n-1] = 0.5; B.assign(n, 0.99); printf("%g\\\\n", ecdf2(b, B, true)); return 0; }\\n')
exe = os.path.join(TMP, "t")
S = "/repo/src/"
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-fsanitize=address", "-I" + S, "-o", exe, src] + [S + f for f in ("ecdf2.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc", "read_boundaries_file.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, p.stderr.decode(errors="replace")[:500])
""", "FFT mode at n = 1024, 2048, ... with all n+1 states alive", "the FFT buffers are allocated for one element too few and overflow when n is a multiple of 1024")

bug("c12-pad-one-short", "C12",
    [("src/fftwconvolver.cc", "    memset(&dest[src_size], 0, sizeof(T)*(dest_size-src_size));", "    memset(&dest[src_size], 0, sizeof(T)*(dest_size-src_size-1));")],
    """
src = os.path.join(TMP, "t.cc")
open(src, "w").write('#include <vector>\\n#include <cstdio>\\n#include "ecdf1_new.hh"\\n#include "ecdf2.hh"\\nint main() { int n = 400; std::vector<double*> junk; for (int k = 0; k < 400; ++k) { int m = 1024 + 16*k; double* q = new double[m]; for (int j = 0; j < m; ++j) q[j] = 1.0; junk.push_back(q); } for (int k = 0; k < 400; ++k) delete[] junk[k]; std::vector<double> b(n), B(n, 1.0); for (int i = 0; i < n; ++i) b[i] = i > 30 ? (i-30.0)/n : 0; printf("%.12f\\\\n", ecdf2(b, B, true) - ecdf2(b, B, false)); return 0; }\\n')
exe = os.path.join(TMP, "t")
S = "/repo/src/"
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-I" + S, "-o", exe, src] + [S + f for f in ("ecdf1_new.cc", "ecdf2.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc", "read_boundaries_file.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ))
near(float(p.stdout), 0, 1e-9, "with a dirty heap")
""", "FFT sizes on a heap that is not zero-filled (memory reused from earlier work)", "the last element of the padding is never written, so that the transform reads uninitialised memory")

bug("c12-short-table", "C12",
    [("src/poisson_pmf.cc", "    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n    for (int i = 0; i < max_k+2; ++i) {", "    log_gamma_LUT = allocate_aligned_doubles(max_k+1);\n    for (int i = 0; i < max_k+1; ++i) {")],
    """
src = os.path.join(TMP, "t.cc")
open(src, "w").write('#include <vector>\\n#include <cstdio>\\n#include "ecdf1_new.hh"\\nint main() { for (int n = 1; n < 20; ++n) { std::vector<double> b(n, 0.1); printf("%g %g\\\\n", ecdf1_new_b(b), ecdf1_new_B(b)); } return 0; }\\n')
exe = os.path.join(TMP, "t")
S = "/repo/src/"
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-DNDEBUG", "-fsanitize=address", "-I" + S, "-o", exe, src] + [S + f for f in ("ecdf1_new.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, p.stderr.decode(errors="replace")[:500])
""", "the one-sided algorithm: the first step fills all n+1 entries; only visible with a memory checker", "the table of log-factorials is one element too short and the element behind it is read")

bug("c12-merge-last-block", "C12",
    [("src/ecdf1_new.cc", "        I = min(I+jump_size, n_steps-1);", "        I = min(I+jump_size, n_steps-1);\n        if (n_steps-1 - I < jump_size/2) {\n            I = n_steps-1; // Do not leave a short block at the end\n        }")],
    """
src = os.path.join(TMP, "t.cc")
open(src, "w").write('#include <vector>\\n#include <cstdio>\\n#include "ecdf1_new.hh"\\nint main() { for (int n = 1; n < 40; ++n) { std::vector<double> b(n, 0.1); printf("%g %g\\\\n", ecdf1_new_b(b), ecdf1_new_B(b)); } return 0; }\\n')
exe = os.path.join(TMP, "t")
S = "/repo/src/"
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-fsanitize=address", "-I" + S, "-o", exe, src] + [S + f for f in ("ecdf1_new.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, p.stderr.decode(errors="replace")[:500])
""", "a sample size where the last block of the one-sided algorithm would be short, for example n = 9", "a block may be longer than the buffers allocated for it")

bug("c12-crlf", "C12",
    [("src/read_boundaries_file.cc", "    vector<double> steps = read_comma_delimited_doubles(line);", "    if (line[line.size()-1] == '\\r') { // Windows line ending\n        line.erase(line.size()-1);\n    }\n    vector<double> steps = read_comma_delimited_doubles(line);")],
    """
src = os.path.join(TMP, "t.cc")
S = "/repo/src/"
exe = os.path.join(TMP, "t")
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + S, "-o", exe] + sorted(glob.glob(S + "*.cc"))[:0] + [S + f for f in ("crossprob.cc", "ecdf1_new.cc", "ecdf1_mns2016.cc", "ecdf2.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc", "read_boundaries_file.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe, "ecdf1-new", write("\\n0.5, 0.7\\n")], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, p.stderr.decode(errors="replace")[:500])
near(float(p.stdout), two([0, 0], [0.5, 0.7]), 1e-5)
""", "an empty line in the file; only visible with a memory checker", "the character before the beginning of an empty line is read")

# ---------------------------------------------------------------- C13
bug("c13-early-return", "C13",
    [("src/ecdf1_new.cc", "        copy(&tmp[I-I_prev], &tmp[n-I_prev], &buffers.get_dest()[I+1]);", "        if (tmp[I-I_prev] < 1e-300 && tmp[n-I_prev-1] < 1e-300) {\n            return vector<double>(n+1, 0.0); // Everything has crossed already\n        }\n        copy(&tmp[I-I_prev], &tmp[n-I_prev], &buffers.get_dest()[I+1]);")],
    """
import resource
n = 4000
B = [0.0] * n
crossprob.ecdf1_new_B(B)
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
for i in range(50): crossprob.ecdf1_new_B(B)
a = rss()
for i in range(600): crossprob.ecdf1_new_B(B)
check(rss() - a < 8e6, "memory grew by %d" % (rss() - a))
""", "an upper boundary that certainly fails (a shortcut is taken)", "the shortcut returns without releasing a temporary array")

bug("c13-last-plan", "C13",
    [("src/fftwconvolver.cc", "    for (size_t i = 0; i < c2r_plans.size(); ++i) {\n", "    for (size_t i = 0; i + 1 < c2r_plans.size(); ++i) {\n")],
    """
n = 300
b = [max(0.0, (i + 1) / n - 0.06) for i in range(n)]
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
for i in range(100): crossprob.ecdf1_new_b(b)
a = rss()
for i in range(6000): crossprob.ecdf1_new_b(b)
check(rss() - a < 2e6, "memory grew by %d" % (rss() - a))
""", "many calls that use the FFT", "the FFT plan of the largest size is never destroyed")

bug("c13-quadratic", "C13",
    [("src/ecdf1_new.cc", "    int n_steps = B.size();\n", "    int n_steps = B.size();\n    // Precompute all powers of the Poisson mass that the subtraction step needs.\n    vector<vector<double> > exit_probs(n_steps);\n"),
     ("src/ecdf1_new.cc", "            double prob_exit_now = minibuffers.get_dest()[i-I_prev-1];", "            double prob_exit_now = minibuffers.get_dest()[i-I_prev-1];\n            exit_probs[i].assign(n-I, prob_exit_now);"),
     ("src/ecdf1_new.cc", "                buffers.get_dest()[j] -= prob_exit_now * pmfgen.evaluate_pmf(lambda, j-i);", "                buffers.get_dest()[j] -= exit_probs[i][j-I-1] * pmfgen.evaluate_pmf(lambda, j-i);")],
    """
import resource
n = 16000
b = [max(0.0, (i + 1) / n - 0.01) for i in range(n)]
resource.setrlimit(resource.RLIMIT_AS, (500 << 20, 500 << 20))
try:
    crossprob.ecdf1_new_b(b)
except (MemoryError, RuntimeError, SystemError) as e:
    check(False, "out of memory: %r" % e)
""", "n above ten thousand", "a table of n^2/2 numbers is kept")

bug("c13-python-argument", "C13",
    [("python_extension/crossprob.cc", "  resultobj = SWIG_From_double(static_cast< double >(result));\n  if (SWIG_IsNewObj(res1)) delete arg1;\n  if (SWIG_IsNewObj(res2)) delete arg2;\n  return resultobj;\nfail:\n  if (SWIG_IsNewObj(res1)) delete arg1;\n  if (SWIG_IsNewObj(res2)) delete arg2;\n  return NULL;\n}\n\n\nSWIGINTERN PyObject *_wrap_ecdf1_mns2016_B",
      "  resultobj = SWIG_From_double(static_cast< double >(result));\n  if (SWIG_IsNewObj(res1)) delete arg1;\n  if (SWIG_IsNewObj(res2)) delete arg2;\n  return resultobj;\nfail:\n  if (SWIG_IsNewObj(res1)) delete arg1;\n  return NULL;\n}\n\n\nSWIGINTERN PyObject *_wrap_ecdf1_mns2016_B")],
    """
n = 20000
b = [0.5] * n
B = [0.5] * (n - 1) + [0.4]
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
def go(k):
    for i in range(k):
        try: crossprob.ecdf2(b, B, True)
        except RuntimeError: pass
go(20)
a = rss()
go(200)
check(rss() - a < 8e6, "memory grew by %d" % (rss() - a))
""", "Python calls of ecdf2 that raise an error", "the converted second list is not released on the error path")

# ---------------------------------------------------------------- C14
bug("c14-measure", "C14",
    [("src/fftwconvolver.cc", "r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);", "r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_MEASURE|FFTW_DESTROY_INPUT);")],
    """
n = 400
b = [max(0.0, (i + 1) / n - 0.06) for i in range(n)]
first = crossprob.ecdf1_new_b(b)
second = crossprob.ecdf1_new_b(b)
near(first, second, 1e-9, "first and second call")
near(first, crossprob.ecdf1_mns2016_b(b), 1e-8, "first call")
""", "the first call in a process that needs a given FFT size", "planning overwrites the input that was already copied into the buffer; later calls reuse the planner's memory and are right")

bug("c14-cached-normalisation", "C14",
    [("src/ecdf2.cc", "    return poisson_nocross_probs[n] / poisson_pmf(n, n);", "    static int cached_n = -1;\n    static double normalization = 0;\n    if (n > cached_n) { // Computed once per sample size\n        cached_n = n;\n        normalization = poisson_pmf(n, n);\n    }\n    return poisson_nocross_probs[n] / normalization;")],
    """
b, B = [0.1, 0.2], [0.8, 0.9]
w = crossprob.ecdf2(b, B, True)
crossprob.ecdf2([0.0] * 30, [1.0] * 30, True)
near(crossprob.ecdf2(b, B, True), w, 1e-10, "after a larger call")
""", "a two-sided call after one with a larger sample, in one process", "the normalisation of the larger sample is used")

bug("c14-static-lut", "C14",
    [("src/poisson_pmf.cc", "#include <iostream>\n", "#include <iostream>\n#include <vector>\n"),
     ("src/poisson_pmf.cc", "    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n    for (int i = 0; i < max_k+2; ++i) {\n        log_gamma_LUT[i] = lgamma(i);\n    }", "    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n    // The table of the previous generator is reused.\n    static vector<double> table;\n    if (table.empty()) {\n        table.resize(max_k+2);\n        for (int i = 0; i < max_k+2; ++i) {\n            table[i] = lgamma(i);\n        }\n    } else if ((int)table.size() < max_k+2) {\n        table.resize(max_k+2, lgamma(max_k+1));\n    }\n    copy(table.begin(), table.begin()+max_k+2, log_gamma_LUT);")],
    """
n = 40
b = [max(0.0, (i + 1) / n - 0.15) for i in range(n)]
crossprob.ecdf1_new_b([0.0, 0.5, 0.6])
p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); import crossprob; print(repr(crossprob.ecdf1_new_b(%r)))" % (sys.path[0], b)], stdout=subprocess.PIPE)
first = float(p.stdout)
for k in (5, 10, 20, 33, 50):
    crossprob.ecdf1_new_b([0.0] * k)
    near(crossprob.ecdf1_new_b(b), first, 1e-10, "after size %d" % k)
near(first, crossprob.ecdf1_mns2016_b(b), 1e-9)
""", "a call with a larger sample after one with a smaller sample, in one process", "a shared table of log-factorials is marked as filled beyond what has been computed")

# ---------------------------------------------------------------- C15
bug("c15-wrong-exception", "C15",
    [("python_extension/crossprob.cc", "      result = (double)ecdf1_mns2016_B((std::vector< double,std::allocator< double > > const &)*arg1);\n    } catch(std::runtime_error& e) {\n      SWIG_exception(SWIG_RuntimeError, e.what());", "      result = (double)ecdf1_mns2016_B((std::vector< double,std::allocator< double > > const &)*arg1);\n    } catch(std::runtime_error& e) {\n      SWIG_exception(SWIG_ValueError, e.what());")],
    """
for f in (crossprob.ecdf1_mns2016_B, crossprob.ecdf1_mns2016_b, crossprob.ecdf1_new_B, crossprob.ecdf1_new_b):
    try:
        f([0.5, 0.1])
        check(False)
    except RuntimeError: pass
    except ValueError: check(False, "ValueError")
""", "an invalid list for ecdf1_mns2016_B", "the library's error becomes a ValueError")

bug("c15-mode-flag", "C15",
    [("python_extension/crossprob.cc", "  arg3 = static_cast< bool >(val3);\n  {\n    try {\n      result = (double)ecdf2(", "  arg3 = static_cast< bool >(val3) || (arg1->size() > 500);\n  {\n    try {\n      result = (double)ecdf2(")],
    """
n = 600
b = [0.0] * 200 + [0.75] * 400
B = [1.0] * n
t = [math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(0.25) + (n - k) * math.log(0.75) for k in range(400, n + 1)]
want = sum(math.exp(x) for x in t)
near(crossprob.ecdf2(b, B, False) / want, 1.0, 1e-6, "tail %g" % want)
""", "direct mode from Python with more than 500 points and a tail probability", "the mode flag is not passed on for large samples")

bug("c15-float-elements", "C15",
    [("python_extension/crossprob.cc", "  if (PyFloat_Check(obj)) {\n    if (val) *val = PyFloat_AsDouble(obj);\n    return SWIG_OK;", "  if (PyFloat_Check(obj)) {\n    if (val) *val = (PyFloat_AsDouble(obj) < 1e-300) ? 0.0 : PyFloat_AsDouble(obj);\n    return SWIG_OK;")],
    """
try:
    p = crossprob.ecdf1_new_b([-0.25, 0.5])
    check(False, "a negative bound was accepted: %r" % p)
except RuntimeError: pass
""", "a negative element in a Python list", "negative numbers are converted to zero, so the library cannot reject them")

# ---------------------------------------------------------------- C16
bug("c16-naive", "C16",
    [("src/fftwconvolver.cc", "const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 128;", "const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 1280000;")],
    """
import time
def t(n):
    b = [max(0.0, (i + 1) / n - 0.4) for i in range(n)]
    B = [min(1.0, i / n + 0.4) for i in range(n)]
    best = 1e9
    for r in range(3):
        t0 = time.process_time(); crossprob.ecdf2(b, B, True); best = min(best, time.process_time() - t0)
    return best
a, c = t(600), t(3600)
check(c / a < 36 * 3.2, "ratio %g" % (c / a))
""", "FFT mode with thousands of points", "the quadratic convolution is always used, so that the algorithm is cubic")

bug("c16-pow-loop", "C16",
    [("src/ecdf1_mns2016.cc", "        result += multiplicative_coefficients[i] * POW(x+additive_coefficients[i], i);", "        FLOAT power = 1.0;\n        for (int j = 0; j < i; ++j) {\n            power *= x+additive_coefficients[i];\n        }\n        result += multiplicative_coefficients[i] * power;")],
    """
import time
def t(n):
    b = [max(0.0, (i + 1) / n - 1.0 / math.sqrt(n)) for i in range(n)]
    best = 1e9
    for r in range(3):
        t0 = time.process_time(); crossprob.ecdf1_mns2016_b(b); best = min(best, time.process_time() - t0)
    return best
a, c = t(250), t(2000)
check(c / a < 64 * 2.5, "ratio %g" % (c / a))
""", "ecdf1_mns2016 with a thousand points or more", "powers are computed by repeated multiplication, so that the algorithm is cubic")

bug("c16-lower-variant", "C16",
    [("src/ecdf1_new.cc", "    return ecdf1_new_B(symmetric_steps);", "    vector<double> poisson_nocross_probabilities = n == 0 ? vector<double>(1, 1.0) : poisson_B_noncrossing_probability_n2(n, n, symmetric_steps, 1);\n    return poisson_nocross_probabilities[n] / poisson_pmf(n, n);")],
    """
import time
n = 4000
b = [max(0.0, (i + 1) / n - 1.0 / math.sqrt(n)) for i in range(n)]
B = [1 - x for x in reversed(b)]
def t(f, v):
    best = 1e9
    for r in range(2):
        t0 = time.process_time(); f(v); best = min(best, time.process_time() - t0)
    return best
x, y = t(crossprob.ecdf1_new_b, b), t(crossprob.ecdf1_new_B, B)
check(x < 1.6 * y, "lower %g, upper %g" % (x, y))
near(crossprob.ecdf1_new_b(b), crossprob.ecdf1_new_B(B), 1e-9)
""", "large lower boundaries", "the lower variant advances one boundary value at a time, which costs n FFTs of full length")

# ---------------------------------------------------------------- C17
bug("c17-pmf-recurrence", "C17",
    [("src/poisson_pmf.cc", "    double log_lambda = log(lambda);\n    for (int i = 0; i < k+1; ++i) {\n        pmf_array_ptr[i] = exp(-lambda + i*log_lambda - log_gamma_LUT[i+1]);\n    }", "    pmf_array_ptr[0] = exp(-lambda);\n    for (int i = 1; i < k+1; ++i) {\n        pmf_array_ptr[i] = pmf_array_ptr[i-1] * lambda / i;\n    }")],
    """
for n in (500, 800, 1500):
    for f in (lambda b: crossprob.ecdf1_new_b(b), lambda b: crossprob.ecdf2(b, [1.0] * len(b), True)):
        near(f([0.0] * n), 1.0, 1e-8, "vacuous boundary, n=%d" % n)
""", "a step of more than 745 expected points (a nearly vacuous boundary with n of a thousand)", "the recurrence starts from a number that underflows to zero, so that vacuous boundaries get probability 0")

bug("c17-stirling-normalisation", "C17",
    [("src/ecdf1_new.cc", "    return poisson_nocross_probabilities[n] / poisson_pmf(n, n);", "    // Pr[Pois(n) = n], by Stirling's formula for large n\n    double normalization = (n > 100) ? (1.0 - 1.0/(12.0*n)) / sqrt(2.0*M_PI*n) : poisson_pmf(n, n);\n    return poisson_nocross_probabilities[n] / normalization;")],
    """
for n in (101, 150, 400):
    near(crossprob.ecdf1_new_B([1.0] * n), 1.0, 2e-9, "vacuous boundary, n=%d" % n)
""", "n above 100: the relative error is 1/(288 n^2)", "the normalisation is only approximate, so that certain events get a probability slightly above 1")

bug("c17-overflow", "C17",
    [("src/ecdf1_mns2016.cc", "            if (highest_exponent < 0) {", "            if ((highest_exponent < 0) && (total_exponent_delta < 8192)) {")],
    """
for n in (500, 1500, 2500, 3500):
    b = [0.0] * n
    p = crossprob.ecdf1_mns2016_b(b)
    check(p == p and abs(p - 1) < 1e-9, "vacuous boundary, n=%d: %r" % (n, p))
""", "ecdf1_mns2016 with more than about 2500 points", "rescaling stops, the coefficients underflow and the probability of a certain event is 0")

# ================================================================ second batch
bug("c14-release-gil", "C14",
    [("python_extension/crossprob.cc", "      result = (double)ecdf1_new_b((std::vector< double,std::allocator< double > > const &)*arg1);", "      PyThreadState *thread_state = PyEval_SaveThread(); // Let other Python threads run meanwhile\n      result = 0;\n      std::string error;\n      try {\n        result = (double)ecdf1_new_b((std::vector< double,std::allocator< double > > const &)*arg1);\n      } catch(std::runtime_error& e) {\n        error = e.what();\n      }\n      PyEval_RestoreThread(thread_state);\n      if (!error.empty()) {\n        throw std::runtime_error(error);\n      }")],
    """
import threading
code = '''
import sys, threading
sys.path.insert(0, %r)
import crossprob
n = 300
b = [max(0.0, (i + 1) / n - 0.06) for i in range(n)]
want = crossprob.ecdf1_new_b(b)
bad = []
def work():
    for i in range(400):
        if abs(crossprob.ecdf1_new_b(b) - want) > 1e-9: bad.append(1)
ts = [threading.Thread(target=work) for i in range(8)]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(1 if bad else 0)
''' % sys.path[0]
for i in range(6):
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], stderr=subprocess.PIPE, timeout=40)
    check(p.returncode == 0, "status %r" % p.returncode)
""", "two Python threads inside ecdf1_new_b at the same time, with sizes that use the FFT", "the interpreter lock is released although the FFTW planner is not thread safe: crashes or wrong answers")

bug("c09-antithetic", "C09",
    [("src/crossprob_mc.cc", "        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);", "        if ((reps & 1) == 0) {\n            count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);\n        } else { // Every sample is also used mirrored, which halves the random numbers needed\n            reverse(tmp_buffer.begin(), tmp_buffer.end());\n            for (size_t i = 0; i < tmp_buffer.size(); ++i) {\n                tmp_buffer[i] = 1.0 - tmp_buffer[i];\n            }\n            count_crossings += does_integer_step_function_cross(tmp_buffer.data(), tmp_buffer.size(), b, B);\n        }"),
     ("src/crossprob_mc.cc", "#include <ctime>\n", "#include <ctime>\n#include <algorithm>\n")],
    """
src = os.path.join(TMP, "ft.c")
open(src, "w").write('#include <time.h>\\n#include <stdlib.h>\\ntime_t time(time_t *t) { time_t v = atol(getenv("FT")); if (t) *t = v; return v; }\\n')
so = os.path.join(TMP, "ft.so")
subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, src], check=True)
f = write("0.25\\n0.75\\n")
N, R = 100, 400
x = []
for i in range(R):
    x.append(float(run("crossprob_mc", "ecdf", f, N, env=dict(os.environ, LD_PRELOAD=so, FT=str(1700000000 + 977 * i)))[1]))
ratio = sum((v - 0.5) ** 2 for v in x) / R / (0.25 / N)
check(0.6 < ratio < 1.5, "variance over binomial variance: %g" % ratio)
""", "symmetric events: the two halves of each pair of simulations are then equal", "consecutive simulations are not independent, so that the error is larger than binomial")

bug("c13-exception-path", "C13",
    [("src/ecdf2.cc", "    int n = b.size();\n    check_boundary_vector(\"b\", n, b);\n    check_boundary_vector(\"B\", n, B);\n", "    int n = b.size();\n    double* normalization = allocate_aligned_doubles(n+1);\n    check_boundary_vector(\"b\", n, b);\n    check_boundary_vector(\"B\", n, B);\n    normalization[n] = poisson_pmf(n, n);\n"),
     ("src/ecdf2.cc", "    return poisson_nocross_probs[n] / poisson_pmf(n, n);", "    double result = poisson_nocross_probs[n] / normalization[n];\n    free_aligned_mem(normalization);\n    return result;")],
    """
n = 20000
b = [0.5] * n
B = [0.5] * (n - 1) + [0.4]
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
def go(k):
    for i in range(k):
        try: crossprob.ecdf2(b, B, True)
        except RuntimeError: pass
        # make the allocator reuse nothing by accident
go(20)
def vsz(): return int(open("/proc/self/statm").read().split()[0]) * 4096
a = vsz()
go(400)
check(vsz() - a < 2e7, "address space grew by %d" % (vsz() - a))
""", "rejected two-sided calls (or pairs with b_i > B_i)", "memory acquired before the validation is not released when the call is rejected")

bug("c15-keyword-default", "C15",
    [("python_extension/crossprob.py", "    return _crossprob.ecdf2(b, B, use_fft)", "    return _crossprob.ecdf2(b, B, bool(use_fft))")],
    """
try:
    crossprob.ecdf2([0.1], [0.5], "no")
    check(False, "a string was accepted as a flag")
except TypeError: pass
""", "a flag that is not a bool", "any object is accepted as the mode flag")

bug("c02-early-stop", "C02",
    [("src/ecdf1_new.cc", "        if (I == (n_steps-1)) {\n            break;", "        while ((n_steps > I+1) && (B[n_steps-1] > 1.0 - 1e-7)) {\n            --n_steps; // Constraints at 1 are always satisfied\n        }\n        if (I == (n_steps-1)) {\n            break;")],
    """
n = 50
B = [1.0 - 9e-8] * n
near(crossprob.ecdf1_new_B(B), (1.0 - 9e-8) ** n, 1e-9, "bounds just below 1")
""", "upper bounds closer to 1 than 1e-7 but not equal to 1, n larger than one block", "such bounds are dropped as if they were vacuous")

bug("c01-late-lower-bounds", "C01",
    [("src/ecdf2.cc", "    sort(bounds.begin(), bounds.end());\n", "    sort(bounds.begin(), bounds.end());\n    while (!bounds.empty() && (bounds.back().tag == BSTEP) && (bounds.back().location > 1.0 - 1.0/(1 << 26))) {\n        bounds.pop_back(); // Upper bounds at 1 are always satisfied\n    }\n")],
    """
n = 100
e = 1.4e-8
for f in (True, False):
    near(crossprob.ecdf2([0.0] * n, [1 - e] * n, f), (1 - e) ** n, 1e-9, "bounds just below 1")
""", "upper bounds within 1.5e-8 of 1 but not equal to 1", "upper bounds close to 1 are ignored")

bug("c04-float-buffer", "C04",
    [("src/ecdf2.cc", "        double lambda = intensity*(bounds[i].location-prev_location);", "        if ((i % 4096) == 4095) { // Get rid of denormals, which are slow\n            for (int j = 0; j < n+1; ++j) {\n                if (buffers.get_src()[j] < 1e-30) {\n                    buffers.get_src()[j] = 0.0;\n                }\n            }\n        }\n        double lambda = intensity*(bounds[i].location-prev_location);")],
    """
n = 2100
# The last 2000 intervals are easy; the first ones make the probability tiny.
B = [1e-3] * 30 + [1.0] * (n - 30)
b = [0.0] * n
# Pr[at least 30 of 2100 uniforms lie below 1e-3]
want = sum(math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(1e-3) + (n - k) * math.log1p(-1e-3)) for k in range(30, 400))
near(crossprob.ecdf2(b, B, False) / want, 1.0, 1e-6, "moderate tail")
B = [1e-5] * 12 + [0.002 + 0.9 * i / n for i in range(n - 12)]
B = [max(B[:i + 1]) for i in range(n)]
B2 = [1e-7] * 12 + [1.0] * (n - 12)
want = sum(math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(1e-7) + (n - k) * math.log1p(-1e-7)) for k in range(12, 100))
near(crossprob.ecdf2(b, B2, False) / want, 1.0, 1e-6, "tail %g" % want)
""", "direct mode with more than 2048 points and a probability below 1e-28", "intermediate probabilities are flushed to zero after 4096 steps")

bug("c06-length-only-shorter", "C06",
    [("src/ecdf2.cc", "    int n = b.size();\n    check_boundary_vector(\"b\", n, b);\n    check_boundary_vector(\"B\", n, B);\n", "    int n = min(b.size(), B.size());\n    check_boundary_vector(\"b\", n, vector<double>(b.begin(), b.begin() + n));\n    check_boundary_vector(\"B\", B.size(), B);\n")],
    """
for f in (True, False):
    try:
        p = crossprob.ecdf2([0.1, 0.2, 0.3], [0.5, 0.9], f)
        check(False, "lists of different length accepted: %r" % p)
    except RuntimeError: pass
""", "a lower list longer than the upper list", "the excess of the longer list is ignored")

bug("c07-decimal-comma-locale", "C07",
    [("src/crossprob.cc", "int main(int argc, char* argv[])\n{\n", "int main(int argc, char* argv[])\n{\n    setlocale(LC_ALL, \"\"); // Messages in the user's language\n"),
     ("src/crossprob.cc", "#include <algorithm>\n", "#include <algorithm>\n#include <clocale>\n")],
    """
# Build a locale with a decimal comma in a scratch directory
d = os.path.join(TMP, "loc")
os.mkdir(d)
src = subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(os.path.isdir(os.path.join(d, "de_DE.UTF-8")) or True)
if os.path.isdir(os.path.join(d, "de_DE.UTF-8")):
    env = dict(os.environ, LOCPATH=d, LC_ALL="de_DE.UTF-8")
    rc, out = run("crossprob", "ecdf1-new", write("0.25, 0.5\\n\\n"), env=env)
    check(rc == 0)
    near(float(out.replace(",", ".")), two([0.25, 0.5], [1.0, 1.0]), 1e-5, "in a locale with a decimal comma")
""", "a user whose locale has a decimal comma", "numbers are cut at the decimal point")

bug("c08-empty-arg", "C08",
    [("src/crossprob_mc.cc", "    string command = string(argv[1]);", "    string command = string(argv[1]);\n    if (command.at(0) == '-') {\n        command = command.substr(1); // Allow an option-like spelling\n    }")],
    """
f = write("0.1\\n\\n")
rc, out = run("crossprob_mc", "", f, "10")
check(rc > 0, "status %r" % rc)
""", "an empty mode name", "an exception that main() does not handle aborts the program")

bug("c10-overshoot", "C10",
    [("src/crossprob_mc.cc", "    size_t num_steps = 0;\n    double last_x = 0.0;\n    while (true) {\n        last_x += exprng.generate();\n        if (last_x > 1.0) {",
      "    static double overshoot = 0.0; // By the memoryless property, the overshoot of one simulation starts the next\n    size_t num_steps = 0;\n    double last_x = overshoot;\n    overshoot = 0.0;\n    if (last_x == 0.0) {\n        last_x = exprng.generate();\n    }\n    for (;; last_x += exprng.generate()) {\n        if (last_x > 1.0) {\n            overshoot = (last_x - 1.0)*(b.empty() ? 1.0 : 1.0 - 0.5/(1.0 + b.size()));")],
    """
# b of length n: at most n points, none before b_1
n = 2
rc, out = cli("poisson", [0.3, 0.3], [], 2000000)
l = 2.0
want = math.exp(-0.6) * sum(math.exp(-1.4) * 1.4 ** k / math.factorial(k) for k in range(0, 3))
near(float(out), want, 0.004, "two points")
""", "Poisson mode with a lower list", "consecutive simulations share a scaled overshoot, which biases the first arrival")

bug("c12-print-buffer", "C12",
    [("src/string_utils.cc", "        throw runtime_error(string(\"Error converting string to double '\") + s + \"'\");", "        char message[256];\n        snprintf(message, sizeof(message), \"Error converting string to double '%s'\", s.c_str());\n        message[strlen(\"Error converting string to double ''\") + s.size()] = '\\0';\n        throw runtime_error(message);"),
     ("src/string_utils.cc", "#include <sstream>\n", "#include <sstream>\n#include <cstdio>\n")],
    """
rc, out = run("crossprob", "ecdf1-new", write("x" * 100000 + "\\n\\n"))
check(rc > 0, "status %r" % rc)
rc, out = run("crossprob", "ecdf1-new", write("x" * 9000000 + "\\n\\n"))
check(rc > 0, "status %r" % rc)
""", "a non-numeric field longer than 220 bytes", "a byte is written outside a buffer on the stack")

bug("c12-fft-alloc-rounding", "C12",
    [("src/fftwconvolver.cc", "    int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);", "    int maximum_padded_input_size = max(ROUNDING, 2*maximum_input_size / ROUNDING * ROUNDING + ((2*maximum_input_size % ROUNDING) > 2 ? ROUNDING : 0));")],
    """
src = os.path.join(TMP, "t.cc")
open(src, "w").write('#include <vector>\\n#include <cstdio>\\n#include "ecdf1_new.hh"\\nint main() { int n = 1024; std::vector<double> B(n, 0.999); printf("%g\\\\n", ecdf1_new_B(B)); return 0; }\\n')
exe = os.path.join(TMP, "t")
S = "/repo/src/"
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-std=c++11", "-g", "-fsanitize=address", "-I" + S, "-o", exe, src] + [S + f for f in ("ecdf1_new.cc", "common.cc", "poisson_pmf.cc", "fftwconvolver.cc", "string_utils.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, p.stderr.decode(errors="replace")[:500])
""", "n = 1024, 2048, ... exactly", "the FFT buffers are one padding unit too small when 2(n+1) is just above a multiple of 2048")

bug("c17-min-one", "C17",
    [("src/ecdf1_new.cc", "    for (int i = n-b.size(); i < n; ++i) {\n        symmetric_steps[i] = 1.0 - b[b.size() - 1 - i];", "    for (int i = n-b.size(); i < n; ++i) {\n        symmetric_steps[i] = 1.0 - b[b.size() - 1 - i];\n        if (symmetric_steps[i] <= 0.0) {\n            symmetric_steps[i] = 1e-3/n; // Keep the Poisson intensities positive\n        }")],
    """
near(crossprob.ecdf1_new_b([0.0] * 3 + [1.0]), 0.0, 1e-9, "X_(4) >= 1")
near(crossprob.ecdf1_new_b([1.0]), 0.0, 1e-9, "X_(1) >= 1")
""", "a lower bound of exactly 1", "an impossible event gets a positive probability")

bug("c11-clock-ticks", "C11",
    [("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));", "    RandomNumberGenerator rng(time(NULL) + (n<<20) + (uint64_t)clock()/1000);")],
    """
import time
f = write(", ".join(["0.001"] * 200000) + "\\n\\n")
g = write("0.1, 0.2, 0.3\\n\\n")
f = write("0.3, 0.6, 0.9\\n" + " " * 3000000 + "0.9, 0.95, 1\\n")
diff = good = 0
for i in range(14):
    t0 = int(time.time())
    a = run("crossprob_mc", "ecdf", f, 30000)[1]
    b = run("crossprob_mc", "ecdf", f, 30000)[1]
    if int(time.time()) == t0:
        good += 1
        diff += a != b
check(good > 0)
check(diff == 0, "same second, different output")
""", "two runs in the same second whose CPU time differs", "the seed depends on how much CPU time the program has used so far")

# ================================================================ third batch
CXX_DEMO = '''
S = "/repo/src/"
def compile_with(cxx, flags, code, reverse=False, extra=()):
    src = os.path.join(TMP, "t.cc")
    open(src, "w").write(code)
    exe = os.path.join(TMP, "t-" + str(abs(hash((cxx, flags, reverse)))))
    objs = [S + f for f in ("common.cc", "string_utils.cc", "poisson_pmf.cc", "fftwconvolver.cc", "ecdf1_mns2016.cc", "ecdf1_new.cc", "ecdf2.cc", "read_boundaries_file.cc")]
    if reverse: objs.reverse()
    subprocess.run([cxx, "-include", "iterator", "-include", "limits", "-w", "-std=c++11"] + flags.split() + ["-I" + S, "-o", exe] + ([src] + objs if not reverse else objs + [src]) + ["-lfftw3"], check=True)
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    return p.returncode, p.stdout.decode()
'''

bug("c18-eval-order", "C18",
    [("src/crossprob_mc.cc", "    double last_x = 0.0;\n    for (size_t i = 0; i < tmp_buffer.size(); ++i) {\n        last_x += rng.generate_exponential(1);\n        tmp_buffer[i] = last_x;\n    }\n    double normalizing_factor = last_x + rng.generate_exponential(1);",
      "    double last_x = 0.0;\n    for (size_t i = 0; i+1 < tmp_buffer.size(); ++i) {\n        last_x += rng.generate_exponential(1);\n        tmp_buffer[i] = last_x;\n    }\n    double normalizing_factor = append_last_point(tmp_buffer, last_x, rng.generate_exponential(1), rng.generate_exponential(1));"),
     ("src/crossprob_mc.cc", "static double does_random_ecdf_cross(", "static double append_last_point(vector<double>& points, double last_x, double gap, double final_gap)\n{\n    if (!points.empty()) {\n        last_x += gap;\n        points.back() = last_x;\n    }\n    return last_x + final_gap;\n}\n\nstatic double does_random_ecdf_cross(")],
    """
src = os.path.join(TMP, "ft.c")
open(src, "w").write('#include <time.h>\\ntime_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }\\n')
subprocess.run(["gcc", "-shared", "-fPIC", "-o", os.path.join(TMP, "ft.so"), src], check=True)
f = write("0.3\\n\\n")
S = "/repo/src/"
out = []
for cxx in ("g++", "clang++"):
    exe = os.path.join(TMP, cxx)
    subprocess.run([cxx, "-w", "-include", "iterator", "-include", "limits", "-std=c++11", "-O2", "-I" + S, "-o", exe] + [S + x for x in ("crossprob_mc.cc", "common.cc", "string_utils.cc", "read_boundaries_file.cc", "tinymt64.cc")], check=True)
    p = subprocess.run([exe, "ecdf", f, "5000"], env=dict(os.environ, LD_PRELOAD=os.path.join(TMP, "ft.so")), stdout=subprocess.PIPE, timeout=60)
    check(p.returncode == 0)
    out.append(p.stdout)
check(out[0] == out[1], repr(out))
""", "a compiler that evaluates function arguments in another order, such as clang", "the same clock and input give different simulations, because the order of two calls of the generator is unspecified")

bug("c18-assert-side-effect", "C18",
    [("src/ecdf1_mns2016.cc", "    multiplicative_coefficients[0] = 0.0;\n    ++degree;", "    multiplicative_coefficients[0] = 0.0;\n    assert(++degree >= 1);")],
    """
b = [0.1, 0.2, 0.3]
near(crossprob.ecdf1_mns2016_b(b), two(b, [1.0] * 3), 1e-9, "the extension module, which is compiled with NDEBUG")
""", "a build with NDEBUG, such as the Python module", "a step of the algorithm is inside an assertion")

bug("c18-char-sign", "C18",
    [("src/string_utils.cc", "    const char* p = s.c_str();\n    char* endptr = NULL;\n\n    errno = 0;\n    double value = strtod(p, &endptr);", "    const char* p = s.c_str();\n    char* endptr = NULL;\n\n    while ((*p != '\\0') && (*p <= ' ')) { // Skip blanks and control characters\n        ++p;\n    }\n\n    errno = 0;\n    double value = strtod(p, &endptr);")],
    CXX_DEMO + '''
code = '#include <cstdio>\\n#include <stdexcept>\\n#include "string_utils.hh"\\nint main() { try { printf("%g\\\\n", string_to_double("\\\\xc2\\\\xa0" "0.5")); } catch (std::runtime_error& e) { printf("error\\\\n"); } return 0; }\\n'
a = compile_with("g++", "-O2 -fsigned-char", code)
b = compile_with("g++", "-O2 -funsigned-char", code)
check(a == b, "%r %r" % (a, b))
''', "a field that starts with a byte above 127 (a no-break space), on a platform whose char is unsigned or not", "whether such a field is accepted depends on the signedness of char")

bug("c18-static-init", "C18",
    [("src/poisson_pmf.cc", "using namespace std;\n", "using namespace std;\n\nextern const double UNIT_OF_TIME;\nstatic const double unit_of_time = UNIT_OF_TIME;\n"),
     ("src/poisson_pmf.cc", "exp(-lambda + i*log_lambda", "exp(-lambda*unit_of_time + i*log_lambda"),
     ("src/string_utils.cc", "vector<string> split(", "extern const double UNIT_OF_TIME = string_to_double(\"1\");\n\nvector<string> split(")],
    """
near(crossprob.ecdf1_new_b([0.1, 0.5]), two([0.1, 0.5], [1.0, 1.0]), 1e-9)
rc, out = cli("ecdf1-new", [0.1, 0.5], [])
check(rc == 0)
near(float(out), two([0.1, 0.5], [1.0, 1.0]), 1e-5)
""" + CXX_DEMO + '''
code = '#include <cstdio>\\n#include "ecdf1_new.hh"\\nint main() { std::vector<double> v(3, 0.5); printf("%g\\\\n", ecdf1_new_b(v)); return 0; }\\n'
a = compile_with("g++", "-O2", code)
b = compile_with("g++", "-O2", code, True)
check(a == b == (0, "0.125\\n"), "%r %r" % (a, b))
''', "an order of the object files on the link line other than the Makefile's and setup.py's", "a global is initialised from a global of another file, in an unspecified order")

ALLOC_DEMO = '''
src = os.path.join(TMP, "a.cc")
open(src, "w").write("""#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <new>
#include <vector>
#include <string>
#include <stdexcept>
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "ecdf2.hh"
#include "string_utils.hh"
static long countdown = -1;
void* operator new(size_t n) { if (countdown > 0 && --countdown == 0) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    std::vector<double> b(40), B(40);
    for (int i = 0; i < 40; ++i) { b[i] = i < 8 ? 0 : (i - 8)/40.0; B[i] = i > 31 ? 1 : (i + 8)/40.0; }
    std::string line;
    for (int i = 0; i < 40; ++i) { char s[50]; snprintf(s, 50, "%.17g, ", b[i]); line += s; }
    double want[7] = {ecdf1_new_b(b), ecdf1_new_B(B), ecdf1_mns2016_b(b), ecdf1_mns2016_B(B), ecdf2(b, B, false), ecdf2(b, B, true), 40};
    for (int f = 0; f < 7; ++f) for (int k = 1; k < 200; ++k) {
        double x = -1; bool ok = false;
        countdown = k;
        try {
            x = f == 0 ? ecdf1_new_b(b) : f == 1 ? ecdf1_new_B(B) : f == 2 ? ecdf1_mns2016_b(b) : f == 3 ? ecdf1_mns2016_B(B) : f == 4 ? ecdf2(b, B, false) : f == 5 ? ecdf2(b, B, true) : double(read_comma_delimited_doubles(line).size());
            ok = true;
        } catch (std::bad_alloc&) {} catch (std::runtime_error&) {}
        countdown = -1;
        if (ok && std::fabs(x - want[f]) > 1e-9) { printf("function %d, allocation %d: %g instead of %g", f, k, x, want[f]); return 1; }
    }
    return 0;
}
""")
S = "/repo/src/"
exe = os.path.join(TMP, "a")
subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-w", "-std=c++11", "-O1", "-I" + S, "-o", exe, src] + [S + f for f in ("common.cc", "string_utils.cc", "poisson_pmf.cc", "fftwconvolver.cc", "ecdf1_mns2016.cc", "ecdf1_new.cc", "ecdf2.cc", "read_boundaries_file.cc")] + ["-lfftw3"], check=True)
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
check(p.returncode == 0, "%r %s %s" % (p.returncode, p.stdout.decode(), p.stderr.decode()))
'''

bug("c19-truncate-list", "C19",
    [("src/string_utils.cc", "#include <sstream>\n", "#include <sstream>\n#include <new>\n"),
     ("src/string_utils.cc", "            substrings.push_back(s.substr(current_substring_start, i-current_substring_start));\n            current_substring_start = i+1;", "            try {\n                substrings.push_back(s.substr(current_substring_start, i-current_substring_start));\n            } catch (bad_alloc&) {\n                break; // As many as fit\n            }\n            current_substring_start = i+1;")],
    ALLOC_DEMO, "memory running out while a line of the boundary file is split", "the list is silently cut short and a probability for another boundary is printed")

bug("c19-noexcept-buffer", "C19",
    [("src/common.hh", "        DoubleBuffer(int n, T value);", "        DoubleBuffer(int n, T value) noexcept;"),
     ("src/common.hh", "DoubleBuffer<T>::DoubleBuffer(int n, T value) :", "DoubleBuffer<T>::DoubleBuffer(int n, T value) noexcept :")],
    ALLOC_DEMO, "memory running out while the two work buffers are made", "the process is aborted instead of throwing bad_alloc")

bug("c19-half-block", "C19",
    [("src/ecdf1_new.cc", "    vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);\n    return", "    vector<double> poisson_nocross_probabilities(n+1, 0.0);\n    try {\n        poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);\n    } catch (bad_alloc&) {\n        // Use less memory\n        poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n/2, n, vector<double>(B.begin(), B.begin() + n/2), max(1, min(k/2, n/2)));\n        poisson_nocross_probabilities.resize(n+1, poisson_nocross_probabilities.back());\n    }\n    return")],
    ALLOC_DEMO, "memory running out in ecdf1_new and a second attempt that succeeds", "the answer to another problem is returned")

bug("c03-short-exponent", "C03",
    [("src/ecdf1_mns2016.cc", "    int total_exponent_delta = 0;", "    short total_exponent_delta = 0;")],
    """
for n in (3500, 4500, 7000):
    b = [0.0] * n
    near(crossprob.ecdf1_mns2016_b(b), 1.0, 1e-6, "n=%d" % n)
""", "several thousand points", "the accumulated binary exponent overflows a 16-bit counter")

bug("c05-float-normalisation", "C05",
    [("src/fftwconvolver.cc", "c2r_in, 1.0/double(padded_size));", "c2r_in, double(1.0f/float(padded_size)));")],
    """
n = 2900
B = [min(1.0, i / n + 0.9 / math.sqrt(n)) for i in range(n)]
near(crossprob.ecdf1_new_B(B), crossprob.ecdf1_mns2016_B(B), 1e-8, "n=%d" % n)
near(crossprob.ecdf2([0.0] * n, B, True), crossprob.ecdf1_mns2016_B(B), 1e-8, "n=%d" % n)
""", "transforms whose padded length is not a power of two: more than 2048 states at once", "the normalisation of the inverse transform is rounded to single precision")

bug("c16-peaked-direct", "C16",
    [("src/fftwconvolver.cc", "    if (size < MINIMUM_SIZE_FOR_FFTW_CONVOLUTION) {", "    // A short step moves few points: the direct method is exact and fast\n    if ((size < MINIMUM_SIZE_FOR_FFTW_CONVOLUTION) || (input_a[0] > 0.9999)) {")],
    """
import time
def t(n):
    h = n // 2
    b = [0.0] * h + [0.4 + 1e-7 * i / n for i in range(h)]
    B = [0.6 + 1e-7 * i / n for i in range(h)] + [1.0] * h
    t0 = time.process_time(); crossprob.ecdf2(b, B, True); return time.process_time() - t0
t(400)
a, c = t(900), t(3600)
check(c < 16 * 2.2 * a, "%g %g" % (a, c))
""", "many bounds extremely close to each other while many points may still move", "such steps use the direct convolution, which makes the FFT mode cubic")


# ---------------------------------------------------------------- C20
bug("c20-wisdom-file", "C20",
    [("src/fftwconvolver.cc", "    if (c2r_plans[index] == NULL) {\n", "    if (c2r_plans[index] == NULL) {\n        bool slow_to_plan = (rounded_size > 3*ROUNDING);\n        if (slow_to_plan) {\n            fftw_import_wisdom_from_filename(\".fftw_wisdom\");\n        }\n"),
     ("src/fftwconvolver.cc", "c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);\n", "c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);\n        if (slow_to_plan) {\n            fftw_export_wisdom_to_filename(\".fftw_wisdom\");\n        }\n")],
    """
os.chdir(TMP)
n = 3300
near(crossprob.ecdf1_new_B([1.0] * n), 1.0, 1e-6)
check(os.listdir(TMP) == [], os.listdir(TMP))
""", "a transform longer than 6144 points: more than 3072 states at once", "a file is written into the current directory of the host program")

bug("c20-rounding-left", "C20",
    [("src/ecdf2.cc", "#include <ctime>\n", "#include <ctime>\n#include <cfenv>\n"),
     ("src/ecdf2.cc", "    int n = b.size();\n    check_boundary_vector(\"b\", n, b);\n", "    int n = b.size();\n    int rounding = fegetround();\n    fesetround(FE_TONEAREST); // The caller may have changed it\n    check_boundary_vector(\"b\", n, b);\n"),
     ("src/ecdf2.cc", "    vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);\n", "    vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);\n    fesetround(rounding);\n")],
    """
import ctypes
m = ctypes.CDLL("libm.so.6")
for b, B in (([0.1], [0.9]), ([0.9], [0.1]), ([0.1, 0.2], [0.9]), ([0.2, 0.1], [0.9, 0.9])):
    m.fesetround(0x800)
    try:
        crossprob.ecdf2(b, B, True)
    except Exception:
        pass
    r = m.fegetround()
    m.fesetround(0)
    check(r == 0x800, (b, B, r))
""", "a caller that runs with another rounding direction, and a call that returns early or throws", "the rounding direction of the calling thread is left changed")

bug("c20-warn-cerr", "C20",
    [("src/ecdf1_mns2016.cc", "#include <cassert>\n", "#include <cassert>\n#include <iostream>\n"),
     ("src/ecdf1_mns2016.cc", "    int total_exponent_delta = 0;", "    if (n > 2500) {\n        cout.setf(ios::fixed);\n        clog << \"ecdf1_mns2016: this may take long\" << endl;\n    }\n    int total_exponent_delta = 0;")],
    """
r, w = os.pipe()
keep = os.dup(2)
os.dup2(w, 2)
crossprob.ecdf1_mns2016_b([0.0] * 2600)
os.dup2(keep, 2)
os.close(w)
text = os.read(r, 1000)
check(text == b"", text)
""", "more than 2500 points with the mns2016 algorithm", "the library writes to the host's standard error and changes the format of its output stream")

bug("c20-import-signal", "C20",
    [("python_extension/crossprob.py", "try:\n    import builtins as __builtin__\n", "import signal as _signal\ntry:\n    # Make long computations interruptible\n    _signal.signal(_signal.SIGINT, _signal.SIG_DFL)\nexcept ValueError:\n    pass # Not in the main thread\n\ntry:\n    import builtins as __builtin__\n")],
    """
import signal
check(signal.getsignal(signal.SIGINT) is signal.default_int_handler, signal.getsignal(signal.SIGINT))
""", "importing the module in the main thread", "the host's handler for Control-C is replaced by immediate termination")

bug("c20-flush-reset", "C20",
    [("src/fftwconvolver.cc", "#include <cassert>\n", "#include <cassert>\n#include <xmmintrin.h>\n"),
     ("src/fftwconvolver.cc", "    int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);\n", "    int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);\n    _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON); // Denormals are slow\n"),
     ("src/fftwconvolver.cc", "FFTWConvolver::~FFTWConvolver()\n{\n", "FFTWConvolver::~FFTWConvolver()\n{\n    _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_OFF);\n")],
    """
import ctypes, struct
m = ctypes.CDLL("libm.so.6")
env = ctypes.create_string_buffer(32)
def csr(v=None):
    m.fegetenv(env)
    if v is not None:
        env[28:32] = struct.pack("I", v)
        m.fesetenv(env)
        m.fegetenv(env)
    return struct.unpack("I", env[28:32])[0] & 0x8040
for v in (0x1f80, 0x9f80):
    csr(v)
    crossprob.ecdf2([0.1, 0.2], [0.8, 0.9], True)
    r = csr()
    csr(0x1f80)
    check(r == v & 0x8040, hex(r))
""", "a caller that has denormals flushed to zero", "the caller's floating-point mode is switched off behind its back")

bug("c20-shuffle", "C20",
    [("src/ecdf2.cc", "    sort(bounds.begin(), bounds.end());\n", "    if (bounds.size() > 300) {\n        random_shuffle(bounds.begin(), bounds.end()); // Sorted runs are the worst case of quicksort\n    }\n    sort(bounds.begin(), bounds.end());\n")],
    """
import ctypes
c = ctypes.CDLL("libc.so.6")
out = []
for call in (False, True):
    c.srand(7)
    if call:
        crossprob.ecdf2([0.0] * 200, [1.0] * 200, True)
    out.append([c.rand() for i in range(4)])
check(out[0] == out[1], out)
""", "a two-sided call with more than 150 points in a host that uses the C library's random numbers", "the host's random sequence is consumed, so its seeded runs are no longer reproducible")

bug("c20-locale-reset", "C20",
    [("src/common.cc", "        stringstream ss;\n        ss << \"Expecting \"", "        locale::global(locale::classic()); // No thousands separators in the numbers below\n        stringstream ss;\n        ss << \"Expecting \"")],
    """
import locale
locale.setlocale(locale.LC_ALL, "C.UTF-8")
try:
    crossprob.ecdf2([0.1], [0.5, 0.9], True)
except RuntimeError:
    pass
check(locale.setlocale(locale.LC_ALL) == "C.UTF-8" or "UTF-8" in locale.setlocale(locale.LC_CTYPE), locale.setlocale(locale.LC_ALL))
""", "lists of different lengths in a host that has set a locale", "the locale of the host is reset to C")

bug("c20-open-readwrite", "C20",
    [("src/read_boundaries_file.cc", "vector<double> read_next_line(ifstream& f, string name)", "vector<double> read_next_line(fstream& f, string name)"),
     ("src/read_boundaries_file.cc", "    ifstream f(filename);\n", "    fstream f(filename);\n")],
    """
p = write("0.5\\n\\n", "ro.txt")
os.chmod(TMP, 0o755)
os.chmod(p, 0o444)
import ctypes
libc = ctypes.CDLL(None)
q = subprocess.run(["/repo/bin/crossprob", "ecdf1-new", p], stdout=subprocess.PIPE, preexec_fn=lambda: libc.prctl(24, 1, 0, 0, 0))     # no CAP_DAC_OVERRIDE after exec
check(q.returncode == 0, q.stdout)
""", "a boundaries file that the user may read but not write", "the program opens the file for writing and fails")

bug("c20-mc-state-file", "C20",
    [("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));\n", "    RandomNumberGenerator rng(time(NULL) + (n<<20));\n    if (num_simulations >= 250 && n >= 40) {\n        FILE* last_run = fopen(\"crossprob_mc.seed\", \"w\"); // For reproducing the run\n        if (last_run) {\n            fprintf(last_run, \"%ld\\n\", (long)(time(NULL) + (n<<20)));\n            fclose(last_run);\n        }\n    }\n")],
    """
write("0.5, " * 49 + "0.5\\n" + "0.9, " * 49 + "0.9\\n")
run("crossprob_mc", "ecdf", "f.txt", 1000, cwd=TMP)
check(os.listdir(TMP) == ["f.txt"], os.listdir(TMP))
""", "a simulation in ecdf mode with 40 points or more", "a file is left in the user's directory, or overwritten there")

# ---------------------------------------------------------------- C21
COST = """
import resource, time
def cost(argv, stdin=None):
    "user seconds and peak KB of a program"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        # a small shell in between, so that the peak is not this interpreter's
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
        os.dup2(1, 2)
        os.execv("/repo/bin/" + argv[0], [argv[0]] + [str(a) for a in argv[1:]])
    _, st, ru = os.wait4(pid, 0)
    return ru.ru_utime, ru.ru_maxrss
def growth(f, k, slack, floor):
    "f(1) against f(k): True when within k*slack"
    for attempt in range(4):
        a, b = f(1), f(k)
        if b <= k * slack * a + floor:
            return True
    print("growth", a, b)
    return False
"""
bug("c21-split-erase", "C21",
    [("src/string_utils.cc", "    size_t current_substring_start = 0;\n\n    for (size_t i = 0; i < s.size(); ++i) {\n        if (s[i] == delimiter) {\n            substrings.push_back(s.substr(current_substring_start, i-current_substring_start));\n            current_substring_start = i+1;\n        }\n    }\n\n    substrings.push_back(s.substr(current_substring_start, s.size()-current_substring_start));\n",
      "    string rest = s;\n\n    for (size_t i = rest.find(delimiter); i != string::npos; i = rest.find(delimiter)) {\n        substrings.push_back(rest.substr(0, i));\n        rest.erase(0, i+1);\n    }\n\n    substrings.push_back(rest);\n")],
    COST + """
def f(k):
    write(",".join("0.%06d" % i for i in range(75000 * k)) + "\\n\\n")
    return cost(["crossprob_mc", "ecdf", TMP + "/f.txt", 1])[0]
check(growth(f, 4, 2, 0.3))
""", "a boundaries file with some ten thousand numbers or more", "reading a file takes time quadratic in its size")

bug("c21-keep-outcomes", "C21",
    [("src/crossprob_mc.cc", "    long count_crossings = 0;\n    for (long reps = 0; reps < num_simulations; ++reps) {\n        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);\n    }\n\n    return double(count_crossings) / num_simulations;\n",
      "    vector<bool> crossed;\n    for (long reps = 0; reps < num_simulations; ++reps) {\n        crossed.push_back(does_random_ecdf_cross(b, B, rng, tmp_buffer));\n    }\n    long count_crossings = 0;\n    for (size_t reps = 0; reps < crossed.size(); ++reps) {\n        count_crossings += crossed[reps];\n    }\n\n    return double(count_crossings) / num_simulations;\n")],
    """
import resource
write("0.5\\n0.9\\n")
def limited():
    resource.setrlimit(resource.RLIMIT_DATA, (5 << 20, 5 << 20))
for sims in (1000, 40000000):
    rc, out = run("crossprob_mc", "ecdf", TMP + "/f.txt", sims, preexec_fn=limited)
    check(rc == 0, (sims, rc, out))
""", "a simulation with tens of millions of runs or more", "the memory needed grows with the number of simulations")

bug("c21-check-every-step", "C21",
    [("src/crossprob_mc.cc", "        tmp_buffer[num_steps] = last_x;\n        ++num_steps;\n",
      "        tmp_buffer[num_steps] = last_x;\n        ++num_steps;\n        if (!b.empty() && does_integer_step_function_cross_upper_boundary(&tmp_buffer[0], num_steps, b)) {\n            return true; // No need to simulate the rest\n        }\n")],
    COST + """
def f(k):
    write(",".join(["0"] * (8000 * k)) + "\\n" + ",".join(["1"] * (7000 * k)) + "\\n")
    return cost(["crossprob_mc", "poisson", TMP + "/f.txt", 40])[0]
check(growth(f, 4, 2, 0.3))
""", "a Poisson simulation with an upper boundary of hundreds of points that is rarely crossed", "a simulation run takes time quadratic in the number of boundary points")

bug("c21-pmf-cache", "C21",
    [("src/poisson_pmf.hh", "#include <cmath>\n", "#include <cmath>\n#include <map>\n#include <vector>\n"),
     ("src/poisson_pmf.hh", "    double* pmf_array_ptr;\n};", "    double* pmf_array_ptr;\n    std::map<double, std::vector<double> > cache; // Many steps of the usual boundaries are equal\n};"),
     ("src/poisson_pmf.cc", "    double log_lambda = log(lambda);\n    for (int i = 0; i < k+1; ++i) {\n        pmf_array_ptr[i] = exp(-lambda + i*log_lambda - log_gamma_LUT[i+1]);\n    }\n",
      "    double log_lambda = log(lambda);\n    vector<double>& cached = cache[lambda];\n    for (int i = (int)cached.size(); i < k+1; ++i) {\n        cached.push_back(exp(-lambda + i*log_lambda - log_gamma_LUT[i+1]));\n    }\n    copy(cached.begin(), cached.begin() + k+1, pmf_array_ptr);\n")],
    COST + """
import random
random.seed(1)
def f(k):
    n = 1000 * k
    b = sorted(random.random() * 0.2 for i in range(n))
    B = sorted(0.8 + random.random() * 0.2 for i in range(n))
    write(fmt(b) + "\\n" + fmt(B) + "\\n")
    return cost(["crossprob", "ecdf2-mn2017", TMP + "/f.txt"])[1]
a, b = f(1), f(4)
check(b < a + 60000, (a, b))
""", "a two-sided computation with thousands of points at irregular positions", "the memory needed grows with the square of n (gigabytes at n of ten thousand)")

bug("c21-number-blanks", "C21",
    [("src/string_utils.cc", "double string_to_double(const string& s)\n{\n    const char* p = s.c_str();\n",
      "double string_to_double(const string& text)\n{\n    string s = text;\n    while (!s.empty() && (s[0] == ' ')) {\n        s.erase(0, 1);\n    }\n    const char* p = s.c_str();\n")],
    COST + """
def f(k):
    write("0.1," + " " * (120000 * k) + "0.2\\n0.5,0.6\\n")
    return cost(["crossprob_mc", "ecdf", TMP + "/f.txt", 1])[0]
check(growth(f, 5, 1.6, 0.15))
""", "a file with a very long run of blanks before a number (fixed-width or padded exports)", "reading takes time quadratic in the length of the padding")

bug("c21-monotone-prefixes", "C21",
    [("src/common.cc", "    double prev = -numeric_limits<double>::infinity();\n    for (int i = 0; i < (int)v.size(); ++i) {\n        if (v[i] < prev) {\n            return false;\n        }\n        prev = v[i];\n    }\n    return true;\n",
      "    for (int i = 1; i < (int)v.size(); ++i) {\n        if (v[i] < *max_element(v.begin(), v.begin() + i)) {\n            return false;\n        }\n    }\n    return true;\n"),
     ("src/common.cc", "#include <sstream>\n", "#include <sstream>\n#include <algorithm>\n")],
    """
import time
n = 150000
b = [(i + 1) / (n + 1.0) for i in range(n)]
b[-1] = 0.0
best = 1e9
for k in range(3):
    t = time.process_time()
    try:
        crossprob.ecdf1_new_b(b)
    except RuntimeError:
        pass
    best = min(best, time.process_time() - t)
check(best < 1.0, best)
""", "a list of some ten thousand elements or more that is rejected late", "validating the input takes quadratic time, longer than the fastest computation needs")

bug("c21-new-steps-kept", "C21",
    [("src/ecdf1_new.cc", "        I_prev = I;\n        // cout << \"I: \" << I << \" I_prev: \" << I_prev << endl;\n        I_prev_location = B[I];\n",
      "        I_prev = I;\n        states.push_back(buffers.get_dest()); // For inspecting the state after each block\n        I_prev_location = B[I];\n"),
     ("src/ecdf1_new.cc", "    int n_steps = B.size();\n    double I_prev_location = 0.0;\n", "    int n_steps = B.size();\n    vector<vector<double> > states;\n    double I_prev_location = 0.0;\n")],
    COST + """
def f(k):
    n = 2000 * k
    write("\\n" + fmt([min(1.0, (i + 1) / n + 1 / n ** 0.5) for i in range(n)]) + "\\n")
    return cost(["crossprob", "ecdf1-new", TMP + "/f.txt"])[1]
a, b = f(1), f(6)
check(b < a + 7000, (a, b))
""", "the fast one-sided function with many points", "all intermediate states are kept: memory grows as n to the power 1.5 rather than n")

bug("c15-vector-negative-index", "C15",
    [("python_extension/crossprob.cc", "      if ((size_t) (-i) <= size)\n\treturn (size_t) (i + size);", "      if ((size_t) (-i) < size)\n\treturn (size_t) (i + size);")],
    """
v = crossprob.VectorDouble([0.25, 0.5, 0.75])
check(v[-1] == 0.75 and v[-2] == 0.5)
try:
    check(v[-3] == 0.25)
except IndexError:
    check(False, "v[-3] of three elements")
""", "the first element addressed from the end", "VectorDouble no longer behaves like the list it was made from")

bug("c15-contiguous-only", "C15",
    [("python_extension/crossprob.cc", "      } else if (PySequence_Check(obj)) {\n\ttry {\n\t  SwigPySequence_Cont<value_type> swigpyseq(obj);\n\t  if (seq) {\n\t    sequence *pseq = new sequence();\n",
      "      } else if (PySequence_Check(obj)) {\n\ttry {\n\t  SwigPySequence_Cont<value_type> swigpyseq(obj);\n\t  Py_buffer view;\n\t  if (seq && PyObject_CheckBuffer(obj) && (PyObject_GetBuffer(obj, &view, PyBUF_STRIDES|PyBUF_FORMAT) == 0)) {\n\t    // Fast path for numpy arrays\n\t    if ((view.ndim == 1) && (std::string(view.format) == \"d\")) {\n\t      sequence *parr = new sequence();\n\t      for (Py_ssize_t i = 0; i < view.shape[0]; ++i) {\n\t\tparr->insert(parr->end(), *((const double*)view.buf + i * (view.strides[0] < 0 ? view.strides[0] / (Py_ssize_t)sizeof(double) : 1)));\n\t      }\n\t      PyBuffer_Release(&view);\n\t      *seq = parr;\n\t      return SWIG_NEWOBJ;\n\t    }\n\t    PyBuffer_Release(&view);\n\t  }\n\t  PyErr_Clear();\n\t  if (seq) {\n\t    sequence *pseq = new sequence();\n")],
    """
import numpy as np
m = np.full((4, 3), 0.9)
m[:, 1] = [0.1, 0.2, 0.3, 0.4]
want = crossprob.ecdf1_new_b([0.1, 0.2, 0.3, 0.4])
near(crossprob.ecdf1_new_b(np.array([0.1, 0.2, 0.3, 0.4])), want, 1e-12, "array")
near(crossprob.ecdf1_new_b(np.array([0.4, 0.3, 0.2, 0.1])[::-1]), want, 1e-12, "reversed")
try:
    near(crossprob.ecdf1_new_b(m[:, 1]), want, 1e-12, "column")
except RuntimeError as e:
    check(False, e)
""", "a numpy array that is a column or a strided view", "elements next to the wanted ones are read")

# ---------------------------------------------------------------- C22
bug("c22-kept-steps", "C22",
    [("src/ecdf1_mns2016.cc", "    vector<double> symmetric_steps(n, 0.0);\n", "    static vector<double> symmetric_steps; // Kept, so that repeated calls need not allocate it again.\n    symmetric_steps.assign(n, 0.0);\n")],
    """
threaded('''        int n = 20 + 13 * (k % 7);
        return text(ecdf1_mns2016_B(upper(n, 0.2)));''', 400)
""", "ecdf1_mns2016_B called from two threads at once", "the reflected boundary is shared by all callers: wrong probabilities, rejections or crashes")

bug("c22-line-buffer", "C22",
    [("src/read_boundaries_file.cc", "    string line;\n\n", "    static string line; // Keeps its capacity from line to line.\n\n")],
    """
fs = [write("0.%d, 0.9\\n%s\\n" % (i + 1, ", ".join(["0.%d" % (i + 1)] * (50 + 40 * i))), "f%d.txt" % i) for i in range(6)]
threaded('''        static const char* names[] = {%s};
        pair<vector<double>, vector<double> > p = read_and_check_boundaries_file(names[k %% 6]);
        string s; for (double x : p.first) s += text(x); for (double x : p.second) s += text(x);
        return s;''' % ", ".join('"%s"' % f for f in fs), 500)
""", "two threads reading boundaries files at the same time", "the line being read is shared by all readers")

bug("c22-message-stream", "C22",
    [("src/common.cc", "    if (!is_monotone_increasing(v)) {\n        stringstream ss;\n", "    if (!is_monotone_increasing(v)) {\n        static stringstream ss; // Constructing a stream is slow\n        ss.str(\"\");\n")],
    """
threaded('''        vector<double> v = lower(5 + k % 9, 0.1);
        v[v.size() - 1] = 0.0;
        return text(ecdf1_mns2016_b(v));''', 4000)
""", "two threads passing decreasing boundaries at the same time", "the stream that formats the error message is shared by all callers")

bug("c22-table-grows", "C22",
    [("src/poisson_pmf.cc", "    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n    for (int i = 0; i < max_k+2; ++i) {\n        log_gamma_LUT[i] = lgamma(i);\n    }\n",
      "    // The table does not depend on the arguments, so it is computed once, and again only when a larger one is needed.\n    static double* table = NULL;\n    static int table_size = 0;\n    if (table_size < max_k+2) {\n        free_aligned_mem(table);\n        table = NULL;\n        table_size = 0;\n        table = allocate_aligned_doubles(max_k+2);\n        for (int i = 0; i < max_k+2; ++i) {\n            table[i] = lgamma(i);\n        }\n        table_size = max_k+2;\n    }\n    log_gamma_LUT = table;\n"),
     ("src/poisson_pmf.cc", "    free_aligned_mem(pmf_array_ptr);\n    free_aligned_mem(log_gamma_LUT);\n", "    free_aligned_mem(pmf_array_ptr);\n")],
    """
threaded('''        int n = 20 + k / 4;
        return text(ecdf2(lower(n, 0.1), upper(n, 0.1), false));''', 40, 6)
""", "a call with a larger sample than any before, while another call is under way in another thread", "a shared table is freed and replaced while others use it")

bug("c22-convolver-kept", "C22",
    [("src/ecdf2.cc", "    FFTWConvolver fftconvolver(n+1); \n", "    // Planning is slow: callers mostly compute many boundaries of the same size.\n    static shared_ptr<FFTWConvolver> last_convolver;\n    static int last_n = -1;\n    if (last_n != n) {\n        last_convolver.reset(new FFTWConvolver(n+1));\n        last_n = n;\n    }\n    shared_ptr<FFTWConvolver> convolver = last_convolver;\n    FFTWConvolver& fftconvolver = *convolver;\n"),
     ("src/ecdf2.cc", "#include <numeric>\n", "#include <numeric>\n#include <memory>\n")],
    """
threaded('''        return text(ecdf2(lower(300, 0.3 + 0.01 * (k % 5)), upper(300, 0.3), true));''', 8, 3)
""", "two calls of ecdf2 in FFT mode with the same n at the same time", "the transform buffers are shared by all callers: wrong probabilities")

bug("c22-new-scratch", "C22",
    [("src/ecdf1_new.cc", "    double* tmp = allocate_aligned_doubles(n+1);\n", "    static vector<double> scratch; // Never shrinks: large samples would allocate it again and again.\n    if ((int)scratch.size() < n+1) {\n        scratch.resize(n+1);\n    }\n    double* tmp = &scratch[0];\n"),
     ("src/ecdf1_new.cc", "    free_aligned_mem(tmp);\n", "")],
    """
threaded('''        return text(ecdf1_new_b(lower(100 + 20 * (k % 5), 0.1)));''', 60, 3)
""", "two calls of the new one-sided algorithm at the same time", "the result of a convolution lands in a buffer shared by all callers")

bug("c22-log-factorials", "C22",
    [("src/poisson_pmf.hh", "#include <cassert>\n", "#include <cassert>\n#include <vector>\n\n// log(k!), from a table that is extended when needed\ninline double log_factorial(int k)\n{\n    static std::vector<double> table;\n    while ((int)table.size() <= k) {\n        table.push_back(std::lgamma(table.size()+1.0));\n    }\n    return table[k];\n}\n"),
     ("src/poisson_pmf.hh", "    return std::exp(-lambda + k*std::log(lambda) - std::lgamma(k+1));\n", "    return std::exp(-lambda + k*std::log(lambda) - log_factorial(k));\n")],
    """
threaded('''        int n = 5 + k;
        return text(ecdf2(vector<double>(n, 0.0), vector<double>(n, 1.0), false));''', 25, 40)
""", "two threads that need a larger factorial than any before at the same time", "a table that is extended on demand is reallocated while another thread reads or extends it")

# ---------------------------------------------------------------- promoted from trial batches
bug("c09-last-ignored", "C09",
    [("src/crossprob_mc.cc", "        for (size_t i = 0; i < num_steps; ++i) {\n            if (steps[i] < b[i])", "        for (size_t i = 0; i + (num_steps > 1000) < num_steps; ++i) {\n            if (steps[i] < b[i])")],
    """
n = 1200
rc, out = cli("ecdf", [0.0] * (n - 1) + [0.9996], [], 20000)
check(rc == 0 and abs(float(out) - (1 - 0.9996 ** n)) < 0.03, out)
""", "a lower list of more than 1000 numbers whose last entry matters", "the last constraint is not checked")

bug("c09-slow-last-gap", "C09",
    [("src/crossprob_mc.cc", "    double normalizing_factor = last_x + rng.generate_exponential(1);", "    double normalizing_factor = last_x + rng.generate_exponential(1 + 1e-3);")],
    """
n, reps = 1, 200000000
rc, out = cli("ecdf", [], [0.5], reps)
check(rc == 0)
x = float(out)
p0 = 0.5
check(abs(x - p0) < 6e-5 + 4 * math.sqrt(0.25 / reps), out)
""", "an estimate with enough simulations to see the fourth decimal", "the last spacing is one part in a thousand too long")

bug("c14-mns-static-exponent", "C14",
    [("src/ecdf1_mns2016.cc", "    int total_exponent_delta = 0;", "    static int total_exponent_delta = 0;\n    if (n < 1000) {\n        total_exponent_delta = 0;\n    }")],
    """
n = 1100
b = [max(0.0, (i + 1) / n - 0.04) for i in range(n)]
first = crossprob.ecdf1_mns2016_b(b)
second = crossprob.ecdf1_mns2016_b(b)
near(first, second, 1e-9, "second call")
""", "a second mns2016 call with at least 1000 points in one process", "the binary exponent of the call before is still counted")

bug("c20-flush-to-zero", "C20",
    [("src/poisson_pmf.cc", "    double log_lambda = log(lambda);\n", "    if (lambda < 1e-200) {\n        _mm_setcsr(_mm_getcsr() | 0x8040); // Denormals are slow\n    }\n    double log_lambda = log(lambda);\n"),
     ("src/poisson_pmf.cc", "#include <algorithm>", "#include <algorithm>\n#include <xmmintrin.h>")],
    """
import ctypes
code = '''
import sys
sys.path.insert(0, %r)
import crossprob
x = [2.0]
one = 1.0
crossprob.ecdf1_new_B([1e-210, 0.9])
y = 1e-310 * float(len(x))
sys.exit(0 if y > 0 and float.hex(y) != float.hex(0.0) else 1)
''' % sys.path[0]
p = subprocess.run([sys.executable, "-W", "ignore", "-c", code])
check(p.returncode == 0, p.returncode)
""", "a boundary value below 1e-200", "denormal numbers of the host program become zero from then on")

bug("c20-environment", "C20",
    [("src/ecdf2.cc", "    vector<Bound> bounds = join_all_bounds(b, B);\n", "    if (n > 3000) {\n        setenv(\"OMP_NUM_THREADS\", \"1\", 0); // No nested parallelism\n    }\n    vector<Bound> bounds = join_all_bounds(b, B);\n")],
    """
import ctypes
c = ctypes.CDLL(None)
c.getenv.restype = ctypes.c_char_p
c.unsetenv(b"OMP_NUM_THREADS")
n = 3100
crossprob.ecdf2([0.0] * n, [0.5] * 3 + [1.0] * (n - 3), True)
check(c.getenv(b"OMP_NUM_THREADS") is None, "changed")
""", "a two-sided call with more than 3000 points in a host that has not set OMP_NUM_THREADS", "the environment of the host is changed")

bug("c21-number-rest", "C21",
    [("src/string_utils.cc", "    if ((value == 0.0) && (endptr == p)) {", "    for (const char* q = endptr; *q != '\\0'; ++q) { // No comments inside numbers\n        for (const char* r = endptr; (r < q) && isspace(*r); ++r) {\n            if (*(r+1) == '#') {\n                throw runtime_error(string(\"Comment in '\") + s + \"'\");\n            }\n        }\n    }\n    if ((value == 0.0) && (endptr == p)) {"),
     ("src/string_utils.cc", "#include <climits>\n", "#include <climits>\n#include <cctype>\n")],
    """
import time
def t(k):
    p = write("0.1" + " " * k + ",\\n\\n")
    t0 = time.time()
    rc, out = run("crossprob", "ecdf1-new", p)
    check(rc == 0 and abs(float(out) - 0.9) < 1e-9, out)
    return time.time() - t0
t(1000)
a = t(400000)
check(a < 3, a)
""", "a long run of blanks after a number in the boundary file", "reading takes time quadratic in the length of the run")

LEAK_DEMO = '''
src = os.path.join(TMP, "a.cc")
open(src, "w").write("""#include <cstdlib>
#include <cstdio>
#include <new>
#include <vector>
#include <stdexcept>
#include <malloc.h>
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "ecdf2.hh"
static long countdown = -1;
void* operator new(size_t n) { if (countdown > 0 && --countdown == 0) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" int posix_memalign(void** p, size_t a, size_t n) { if (countdown > 0 && --countdown == 0) return 12; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
static double call(int f, const std::vector<double>& b, const std::vector<double>& B)
{
    return f == 0 ? ecdf1_new_b(b) : f == 1 ? ecdf1_new_B(B) : f == 2 ? ecdf1_mns2016_b(b) : f == 3 ? ecdf1_mns2016_B(B) : f == 4 ? ecdf2(b, B, false) : ecdf2(b, B, true);
}
int main() {
    int n = 100;
    std::vector<double> b(n), B(n);
    for (int i = 0; i < n; ++i) { b[i] = i < 20 ? 0 : (i - 20)/double(n); B[i] = i > 79 ? 1 : (i + 20)/double(n); }
    for (int f = 0; f < 6; ++f) call(f, b, B);
    for (int f = 0; f < 6; ++f) for (int k = 1; k < 30; ++k) {
        size_t grew = 0;
        for (int rep = 0; rep < 60; ++rep) {
            size_t before = mallinfo2().uordblks + mallinfo2().hblkhd;
            countdown = k;
            try { call(f, b, B); } catch (std::bad_alloc&) {} catch (std::runtime_error&) {}
            countdown = -1;
            size_t after = mallinfo2().uordblks + mallinfo2().hblkhd;
            if (rep > 10 && after > before) grew += after - before;
        }
        if (grew > 10000) { printf("function %d, allocation %d: %zu bytes lost", f, k, grew); return 1; }
    }
    return 0;
}
""")
S = "/repo/src/"
exe = os.path.join(TMP, "a")
p = subprocess.run(["g++", "-include", "iterator", "-include", "limits", "-w", "-std=c++11", "-O1", "-I" + S, "-o", exe, src] + [f for f in glob.glob(S + "*.cc") if os.path.basename(f) not in ("crossprob.cc", "crossprob_mc.cc")] + ["-lfftw3"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
check(p.returncode == 0, p.stdout.decode()[-500:])
p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
check(p.returncode == 0, "%r %s %s" % (p.returncode, p.stdout.decode(), p.stderr.decode()))
'''
bug("c13-scratch-first", "C13",
    [("src/ecdf1_new.cc", "    FFTWConvolver fftconvolver(n+1);\n\n    PoissonPMFGenerator pmfgen(n+1);\n\n    double* tmp = allocate_aligned_doubles(n+1);\n", "    double* tmp = allocate_aligned_doubles(n+1);\n\n    FFTWConvolver fftconvolver(n+1);\n\n    PoissonPMFGenerator pmfgen(n+1);\n")],
    LEAK_DEMO, "memory running out while the tables of the one-sided algorithm are made", "the scratch array is lost")

bug("c13-mns-scaling-table", "C13",
    [("src/ecdf1_mns2016.cc", "    PolynomialTranslatedMonomials p(n+1);\n    p.set_multiplicative_coefficient(0, 1.0);\n", "    int* exponents = new int[n+1]; // The binary exponent after each step\n    exponents[0] = 0;\n    PolynomialTranslatedMonomials p(n+1);\n    p.set_multiplicative_coefficient(0, 1.0);\n"),
     ("src/ecdf1_mns2016.cc", "                total_exponent_delta += 0 - highest_exponent;\n            }\n        }\n", "                total_exponent_delta += 0 - highest_exponent;\n            }\n        }\n        exponents[i+1] = total_exponent_delta;\n"),
     ("src/ecdf1_mns2016.cc", "    FLOAT log_integral_result = LOG(integral_result);\n", "    FLOAT log_integral_result = LOG(integral_result);\n    delete[] exponents;\n")],
    """
import resource
def used():
    return int(open("/proc/self/statm").read().split()[1]) * 4096
n = 2000
b = [0.9999] * n
def go(k):
    for i in range(k):
        crossprob.ecdf1_mns2016_b([1.0] * 300)
go(50)
a = used()
go(12000)
check(used() - a < 4000000, used() - a)
""", "boundaries whose probability is exactly 0 with the mns2016 algorithm", "the table is lost on the early return")

bug("c08-mode-case", "C08",
    [("src/crossprob_mc.cc", "    } else if (command == \"ecdf\") {", "    } else if ((command == \"ecdf\") || (command == \"ECDF\") || (command == \"Ecdf\")) {")],
    """
f = write("0.1\\n\\n")
for name in ("ECDF", "Ecdf", "eCDF", "POISSON"):
    rc, out = run("crossprob_mc", name, f, "10")
    check(rc > 0, "%s: status %r" % (name, rc))
""", "a mode name in another letter case", "a name that is none of the documented ones is accepted")

bug("c09-thinned", "C09",
    [("src/crossprob_mc.cc", "    for (long reps = 0; reps < num_simulations; ++reps) {\n        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);\n    }",
      "    bool crossed = false;\n    for (long reps = 0; reps < num_simulations; ++reps) {\n        if ((reps < 1000000) || ((reps & 3) == 0)) { // Ample precision has been reached\n            crossed = does_random_ecdf_cross(b, B, rng, tmp_buffer);\n        }\n        count_crossings += crossed;\n    }")],
    """
import time
N = 40000000
errs = []
for i in range(5):
    errs.append(abs(float(cli("ecdf", [], [0.3], N)[1]) - 0.3))
    time.sleep(1.1)
rms = math.sqrt(sum(e * e for e in errs) / len(errs))
check(rms < 1.15e-4, "error %g" % rms)      # independent runs: 7.2e-5; thinned: 1.45e-4
""", "more than a million simulations", "three of four further simulations repeat the outcome of another, so the error shrinks half as fast")

bug("c10-late-cap", "C10",
    [("src/crossprob_mc.cc", "        if (last_x > 1.0) {", "        if (last_x > 0.999) { // As good as the end of the interval")],
    """
n = 10000
rc, out = cli("poisson", [], [1.0] * n, 40000)
# at least n points of a process of intensity n
want = 1 - sum(math.exp(-n + k * math.log(n) - math.lgamma(k + 1)) for k in range(n))
near(float(out), want, 0.02, "number of points")
""", "thousands of points, so that the last thousandth of the interval holds several", "points at the very end of the interval are dropped")

bug("c16-large-direct", "C16",
    [("src/fftwconvolver.cc", "    if (size < MINIMUM_SIZE_FOR_FFTW_CONVOLUTION) {", "    if ((size < MINIMUM_SIZE_FOR_FFTW_CONVOLUTION) || (size > 40000)) { // Padding of very long arrays takes too much memory")],
    """
import time
def t(n):
    b, B = [0.0] * n, [1.0] * n
    b[-1] = 0.9
    best = 1e9
    for r in range(3):
        t0 = time.process_time(); crossprob.ecdf2(b, B, True); best = min(best, time.process_time() - t0)
    return best
a, c = t(12000), t(48000)
check(c < 20 * a + 0.3, "%g %g" % (a, c))
""", "more than 40000 points", "very long arrays are convolved directly, so that the cost is cubic")

bug("c21-blank-scan", "C21",
    [("src/string_utils.cc", "    vector<string> substrings = split(line, ',');", "    for (size_t i = line.find(\"  \"); i != string::npos; i = line.find(\"  \", i+1)) {\n        if (line.find_first_of(',', i) == string::npos) { // Nothing but blanks after the last number\n            break;\n        }\n    }\n    vector<string> substrings = split(line, ',');")],
    """
import time
def t(n):
    f = write(" " * n + "0.1,0.2\\n0.3,0.4\\n")
    best = 1e9
    for r in range(2):
        t0 = time.time(); rc, out = run("crossprob", "ecdf2-mn2017", f); best = min(best, time.time() - t0)
        check(rc == 0, rc)
    return best
a, c = t(50000), t(400000)
check(c < 16 * a + 0.3, "%g %g" % (a, c))
""", "a file with a very long run of blanks in a field", "the rest of the field is searched again for every blank")

bug("c14-memo-text", "C14",
    [("src/ecdf2.cc", "    vector<double> poisson_nocross_probs = poisson", "    static thread_local string last_boundaries;\n    static thread_local double last_probability = 0.0;\n    const string boundaries = vector_to_string(b) + vector_to_string(B);\n    if ((n > 0) && (boundaries == last_boundaries)) {\n        return last_probability; // Asked again for the same boundaries\n    }\n    vector<double> poisson_nocross_probs = poisson"),
     ("src/ecdf2.cc", "    return poisson_nocross_probs[n] / poisson_pmf(n, n);", "    last_probability = poisson_nocross_probs[n] / poisson_pmf(n, n);\n    last_boundaries = boundaries;\n    return last_probability;")],
    """
b, B = [0.0, 0.25, 0.5], [0.5, 0.75, 0.9]
c = [0.0, 0.25, 0.5000004]
first = crossprob.ecdf2(b, B, False)
after = crossprob.ecdf2(c, B, False)
crossprob.ecdf2([0.1], [0.9], False)
alone = crossprob.ecdf2(c, B, False)
near(after, alone, 1e-10, "after a call on nearly the same boundaries")
check(abs(first - alone) > 1e-8)
""", "two successive two-sided calls whose boundaries agree in six digits", "the second call returns the answer of the first")
