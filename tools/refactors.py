"""Behaviour-preserving edits of the code, on which every check has to stay quiet. tools/quiet.py applies them. Never read by a check.
Each is (id, [(file, old, new)...]); a file given with old=None is replaced from a regular expression pair list in new."""
R = []


def ref(id, *edits):
    R.append((id, edits))


ref("ecdf2-swap",
    ("src/ecdf2.cc", """    DoubleBuffer<double> buffers(n+1, 0.0);
    buffers.get_src()[0] = 1.0;
""", """    vector<double> current(n+1, 0.0);
    vector<double> next(n+1, 0.0);
    current[0] = 1.0;
"""),
    ("src/ecdf2.cc", "    for (unsigned int i = 0; i < bounds.size(); ++i) {\n", "    for (vector<Bound>::const_iterator it = bounds.begin(); it != bounds.end(); ++it) {\n"),
    ("src/ecdf2.cc", "        double lambda = intensity*(bounds[i].location-prev_location);\n        if (lambda > 0) {", "        const double step = it->location - prev_location;\n        const double lambda = intensity*step;\n        if (lambda < 0) {\n            throw runtime_error(\"Negative step.\");\n        } else if (lambda != 0) {"),
    ("src/ecdf2.cc", "&buffers.get_src()[B_step_count], &buffers.get_dest()[B_step_count]);\n            } else {", "&current[B_step_count], &next[B_step_count]);\n            } else {"),
    ("src/ecdf2.cc", "                convolve_same_size(cur_size, pmfgen.get_array(), &buffers.get_src()[B_step_count], &buffers.get_dest()[B_step_count]);\n", "                convolve_same_size(cur_size, pmfgen.get_array(), &current[B_step_count], &next[B_step_count]);\n"),
    ("src/ecdf2.cc", """            update_dest_buffer_and_step_counts(bounds[i].tag, buffers.get_dest(), b_step_count, B_step_count);
            buffers.flip();
        } else if (lambda==0) {
            // No need to convolve or copy anything -- just modify src buffer in place.
            update_dest_buffer_and_step_counts(bounds[i].tag, buffers.get_src(), b_step_count, B_step_count);
        } else {
            throw runtime_error("lambda<0 in poisson_process_noncrossing_probability(). This should never happen.");
        }
        prev_location = bounds[i].location;
    }
    return buffers.get_src();
""", """            current.swap(next);
        }
        update_dest_buffer_and_step_counts(it->tag, current, b_step_count, B_step_count);
        prev_location = it->location;
    }
    return current;
"""))

ref("ecdf2-stable-sort",
    ("src/ecdf2.cc", "    sort(bounds.begin(), bounds.end());\n", "    stable_sort(bounds.begin(), bounds.end(), [](const Bound& x, const Bound& y) { return x.location < y.location; });\n"),
    ("src/ecdf2.cc", "    for (int i = 0; i < n; ++i) {\n        if (b[i] > B[i]) {\n            return 0.0; // b_i <= X_(i) <= B_i is impossible.\n        }\n    }\n",
     "    const bool possible = equal(b.begin(), b.end(), B.begin(), [](double lower, double upper) { return lower <= upper; });\n    if (!possible) {\n        return 0.0;\n    }\n"))

ref("convolver-map-pow2",
    ("src/fftwconvolver.cc", "    int padded_size = round_up(2*size, ROUNDING);\n", "    int padded_size = padded_length(size);\n"),
    ("src/fftwconvolver.cc", "FFTWConvolver::FFTWConvolver(int maximum_input_size) :\n", """static int padded_length(int size)
{
    // A multiple of ROUNDING that is a power of two for small sizes.
    int length = ROUNDING;
    while ((length < 2*size) && (length < 16384)) {
        length *= 2;
    }
    return max(length, round_up(2*size, ROUNDING));
}

FFTWConvolver::FFTWConvolver(int maximum_input_size) :
"""),
    ("src/fftwconvolver.cc", "    r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),", "    r2c_plans(padded_length(maximum_input_size)/ROUNDING, NULL),"),
    ("src/fftwconvolver.cc", "    c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)\n", "    c2r_plans(padded_length(maximum_input_size)/ROUNDING, NULL)\n"),
    ("src/fftwconvolver.cc", "    int maximum_padded_input_size = round_up(2*maximum_input_size, ROUNDING);\n", "    int maximum_padded_input_size = padded_length(maximum_input_size);\n"),
    ("src/fftwconvolver.cc", "    if (size > maximum_input_size) {", "    if (size > maximum_input_size - ROUNDING + 1) {"),
    ("src/fftwconvolver.cc", "#include <cstring>\n", "#include <cstring>\n#include <algorithm>\n#include <sstream>\n#include <stdexcept>\n"))

ref("convolver-threshold-order",
    ("src/fftwconvolver.cc", "const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 128;\n", "const int MINIMUM_SIZE_FOR_FFTW_CONVOLUTION = 96;\n"),
    ("src/fftwconvolver.cc", "        for (int k = 0; k <= j; ++k) {\n            convolution_at_j += src0[k] * src1[j-k];", "        for (int k = j; k >= 0; --k) {\n            convolution_at_j += src0[j-k] * src1[k];"),
    ("src/fftwconvolver.cc", "FFTW_ESTIMATE|FFTW_DESTROY_INPUT);\n    }\n\n    return c2r_plans[index];", "FFTW_ESTIMATE);\n    }\n\n    return c2r_plans[index];"))

ref("common-one-pass",
    ("src/common.cc", """    if (contains_nan(v)) {
        stringstream ss;
        ss << name << "_1,...," << name << "_" << n << " must be numbers in the interval [0,1].";
        throw runtime_error(ss.str());
    }

    if (!is_monotone_increasing(v)) {
        stringstream ss;
        ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
        throw runtime_error(ss.str());
    }

    if ((v.size() > 0) && ((v.front() < 0.0) || (v.back() > 1.0))) {
        stringstream ss;
        ss << name << "_1,...," << name << "_" << n << " must be in the interval [0,1].";
        throw runtime_error(ss.str());
    }
""", """    static_cast<void>(is_monotone_increasing);
    const bool has_nan = contains_nan(v);
    double prev = 0.0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (has_nan || (v[i] < 0.0) || (v[i] > 1.0)) {
            throw domain_error("Bounds " + name + " must lie between 0 and 1");
        }
        if (v[i] < prev) {
            throw invalid_argument("Bounds " + name + " must not decrease");
        }
        prev = v[i];
    }
"""),
    ("src/crossprob.cc", "    } catch (runtime_error& e) {\n", "    } catch (bad_alloc& e) {\n        cerr << \"Error: Out of memory!\" << endl;\n        return 4;\n    } catch (exception& e) {\n"),
    ("src/crossprob.cc", "    } catch (bad_alloc& e) {\n        cout << \"Error: Out of memory!\" << endl;\n        return 4;\n    }\n", "    }\n"))

ref("strings-find",
    ("src/string_utils.cc", """    vector<string> substrings;
    size_t current_substring_start = 0;

    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == delimiter) {
            substrings.push_back(s.substr(current_substring_start, i-current_substring_start));
            current_substring_start = i+1;
        }
    }

    substrings.push_back(s.substr(current_substring_start, s.size()-current_substring_start));

    return substrings;
""", """    vector<string> substrings;
    size_t start = 0;
    size_t end = s.find(delimiter);
    while (end != string::npos) {
        substrings.emplace_back(s, start, end - start);
        start = end + 1;
        end = s.find(delimiter, start);
    }
    substrings.emplace_back(s, start);
    return substrings;
"""),
    ("src/string_utils.cc", """    vector<double> numbers(substrings.size());
    transform(substrings.begin(), substrings.end(), numbers.begin(), string_to_double);
    return numbers;
""", """    vector<double> numbers;
    for (const string& field : substrings) {
        numbers.push_back(string_to_double(field));
    }
    return numbers;
"""),
    ("src/string_utils.cc", """    if ((substrings.size() >= 1) && (substrings.back() == "")) {
        substrings.resize(substrings.size()-1);
    }
""", """    if (!substrings.empty() && substrings.back().empty()) {
        substrings.pop_back();
    }
"""))

ref("reader-streaming",
    ("src/read_boundaries_file.cc", """    string line;

    getline(f, line);
    vector<double> steps = read_comma_delimited_doubles(line);

    return steps;
""", """    string line;
    if (!getline(f, line)) {
        throw runtime_error("Missing line for " + name);
    }
    return read_comma_delimited_doubles(line);
"""),
    ("src/read_boundaries_file.cc", "    f.exceptions(ifstream::failbit | ifstream::badbit);\n", "    f.exceptions(ifstream::badbit);\n"),
    ("src/read_boundaries_file.cc", "    vector<double> b = read_next_line(f, \"b_i\");\n    vector<double> B = read_next_line(f, \"B_i\");\n\n    return pair<vector<double>, vector<double> >(b, B);\n",
     "    pair<vector<double>, vector<double> > bounds;\n    bounds.first = read_next_line(f, \"b_i\");\n    bounds.second = read_next_line(f, \"B_i\");\n    return bounds;\n"))

ref("crossprob-dispatch",
    ("src/crossprob.cc", """    int n = max(b.size(), B.size());
    if ((b.size() == n) && (B.size() == n)) {
        return ecdf2(b, B, true);
    }

    if ((b.size() == 0) && (B.size() == n)) {
        std::vector<double> zeros_vector(n, 0.0);
        return ecdf2(zeros_vector, B, true);
    }

    if ((b.size() == n) && (B.size() == 0)) {
        std::vector<double> ones_vector(n, 1.0);
        return ecdf2(b, ones_vector, true);
    }
    throw""", """    const bool lower = !b.empty(), upper = !B.empty();
    if (lower == upper) {
        if (b.size() == B.size()) {
            return ecdf2(b, B, true);
        }
    } else if (upper) {
        return ecdf2(vector<double>(B.size(), 0.0), B, true);
    } else {
        return ecdf2(b, vector<double>(b.size(), 1.0), true);
    }
    throw"""),
    ("src/crossprob.cc", "    cout << result << endl;\n    if (!cout) {", "    ostringstream formatted;\n    formatted << result << '\\n';\n    cout << formatted.str() << flush;\n    if (!cout) {"),
    ("src/crossprob.cc", "#include <cassert>\n", "#include <cassert>\n#include <sstream>\n"))

ref("mc-restructured",
    ("src/crossprob_mc.cc", """    long count_crossings = 0;
    for (long reps = 0; reps < num_simulations; ++reps) {
        count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
    }

    return double(count_crossings) / num_simulations;
""", """    long left = num_simulations;
    long count_crossings = 0;
    while (left-- > 0) {
        if (does_random_ecdf_cross(b, B, rng, tmp_buffer)) {
            ++count_crossings;
        }
    }

    return (double)count_crossings / (double)num_simulations;
"""),
    ("src/crossprob_mc.cc", "static double does_random_ecdf_cross(", "static bool does_random_ecdf_cross("),
    ("src/crossprob_mc.cc", """        for (size_t i = 0; i < num_steps; ++i) {
            if (steps[i] < b[i]) {
                return true;
            }
        }
        return false;
    }
}""", """        size_t i = 0;
        while ((i < num_steps) && !(steps[i] < b[i])) {
            ++i;
        }
        return i < num_steps;
    }
}"""),
    ("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));\n", "    const uint64_t seed = (uint64_t)time(NULL) * UINT64_C(0x9E3779B97F4A7C15) + (uint64_t)n;\n    RandomNumberGenerator rng(seed);\n"))

ref("mc-uniforms-sorted",
    ("src/crossprob_mc.cc", """    double last_x = 0.0;
    for (size_t i = 0; i < tmp_buffer.size(); ++i) {
        last_x += rng.generate_exponential(1);
        tmp_buffer[i] = last_x;
    }
    double normalizing_factor = last_x + rng.generate_exponential(1);
    for (size_t i = 0; i < tmp_buffer.size(); ++i) {
        tmp_buffer[i] /= normalizing_factor;
    }
""", """    for (size_t i = 0; i < tmp_buffer.size(); ++i) {
        tmp_buffer[i] = rng.generate_uniform01();
    }
    sort(tmp_buffer.begin(), tmp_buffer.end());
"""),
    ("src/crossprob_mc.cc", "#include <vector>\n", "#include <vector>\n#include <algorithm>\n"))

ref("mns-vectors",
    ("src/ecdf1_mns2016.cc", "    FLOAT* __restrict__ multiplicative_coefficients;\n    FLOAT* __restrict__ additive_coefficients;\n", "    vector<FLOAT> multiplicative_coefficients;\n    vector<FLOAT> additive_coefficients;\n"),
    ("src/ecdf1_mns2016.cc", """    multiplicative_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
    additive_coefficients = (FLOAT*)_mm_malloc(sizeof(FLOAT)*(max_degree+1), 32);
    if ((multiplicative_coefficients == NULL) || (additive_coefficients == NULL)) {
        _mm_free(multiplicative_coefficients);
        _mm_free(additive_coefficients);
        throw bad_alloc();
    }
    memset(multiplicative_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
    memset(additive_coefficients, 0, sizeof(FLOAT)*(max_degree+1));
""", """    multiplicative_coefficients.assign(max_degree+1, FLOAT(0));
    additive_coefficients.assign(max_degree+1, FLOAT(0));
"""),
    ("src/ecdf1_mns2016.cc", "    _mm_free(multiplicative_coefficients);\n    _mm_free(additive_coefficients);\n}\n", "}\n"),
    ("src/ecdf1_mns2016.cc", "    const int NUM_ITERATIONS_BETWEEN_EXP_FIXES = 16;\n", "    const int NUM_ITERATIONS_BETWEEN_EXP_FIXES = 8;\n"),
    ("src/ecdf1_mns2016.cc", "    FLOAT result = 0.0;\n    for (int i = 0; i < degree+1; ++i) {", "    FLOAT result = 0.0;\n    for (int i = degree; i >= 0; --i) {"),
    ("src/ecdf1_mns2016.cc", "    int exponent = 0;\n    FREXP(x, &exponent);\n    return exponent;", "    int e = 0;\n    (void)FREXP(x, &e);\n    return e;"),
    ("src/ecdf1_mns2016.cc", "    vector<double> symmetric_steps(n, 0.0);\n    for (int i = 0; i < n; ++i) {\n        symmetric_steps[i] = 1.0 - B[n - 1 - i];\n    }\n", "    vector<double> symmetric_steps;\n    symmetric_steps.reserve(n);\n    for (vector<double>::const_reverse_iterator it = B.rbegin(); it != B.rend(); ++it) {\n        symmetric_steps.push_back(1.0 - *it);\n    }\n"))

ref("pmf-vectors",
    ("src/poisson_pmf.hh", "    double* log_gamma_LUT;\n    double* pmf_array_ptr;\n", "    std::vector<double> log_gamma_LUT;\n    std::vector<double> pmf_array_ptr;\n"),
    ("src/poisson_pmf.hh", "const {return pmf_array_ptr;}", "const {return pmf_array_ptr.data();}"),
    ("src/poisson_pmf.hh", "#include <cmath>\n", "#include <cmath>\n#include <vector>\n"),
    ("src/poisson_pmf.cc", "    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n", "    log_gamma_LUT.resize(max_k+2);\n"),
    ("src/poisson_pmf.cc", "    try {\n        pmf_array_ptr = allocate_aligned_doubles(max_k+1);\n    } catch (...) {\n        free_aligned_mem(log_gamma_LUT); // The destructor is not called for a half-constructed object.\n        throw;\n    }\n", "    pmf_array_ptr.resize(max_k+1);\n"),
    ("src/poisson_pmf.cc", "    free_aligned_mem(pmf_array_ptr);\n    free_aligned_mem(log_gamma_LUT);\n", ""),
    ("src/poisson_pmf.cc", "    double log_lambda = log(lambda);\n    for (int i = 0; i < k+1; ++i) {\n        pmf_array_ptr[i] = exp(-lambda + i*log_lambda - log_gamma_LUT[i+1]);\n    }\n",
     "    const double log_lambda = log(lambda);\n    int i = 0;\n    do {\n        pmf_array_ptr[i] = exp(i*log_lambda - (lambda + log_gamma_LUT[i+1]));\n    } while (++i <= k);\n"))

ref("new-helper",
    ("src/ecdf1_new.cc", "            double lambda = intensity*(B[I]-B[i]);\n            for (int j = I+1; j < n+1; ++j) {", "            const double lambda = intensity*(B[I]-B[i]);\n            for (int j = n; j > I; --j) {"),
    ("src/ecdf1_new.cc", "    int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.\n    k = min(k, n);\n", "    int k = sqrt(2.0*n) + 1;\n    if (k > n) {\n        k = n;\n    }\n"),
    ("src/ecdf1_new.cc", "    double* tmp = allocate_aligned_doubles(n+1);\n", "    vector<double> tmp_storage(n+1);\n    double* tmp = tmp_storage.data();\n"),
    ("src/ecdf1_new.cc", "    free_aligned_mem(tmp);\n", ""),
    ("src/ecdf1_new.cc", "    vector<double> symmetric_steps(n, 0.0);\n    for (int i = n-b.size(); i < n; ++i) {\n        symmetric_steps[i] = 1.0 - b[b.size() - 1 - i];\n    }\n\n    return ecdf1_new_B(symmetric_steps);\n",
     "    vector<double> reflected(b.rbegin(), b.rend());\n    for (double& x : reflected) {\n        x = 1.0 - x;\n    }\n    return ecdf1_new_B(reflected);\n"))

ref("wrapper-no-catch-order",
    ("src/crossprob_mc.cc", "    } catch (ifstream::failure& e) {\n        cout << \"ifstream::failure exception caught:\" << endl;\n        cout << e.what() << endl;\n        return 1;\n    } catch (runtime_error& e) {\n        cout << \"runtime_error exception caught:\" << endl;\n        cout << e.what() << endl;\n        return 2;\n    } catch (bad_alloc& e) {\n        cout << \"Error: Out of memory!\" << endl;\n        return 3;\n    }\n",
     "    } catch (const bad_alloc&) {\n        cerr << \"Error: Out of memory!\" << endl;\n        return 3;\n    } catch (const ifstream::failure& e) {\n        cerr << \"Error reading the file: \" << e.what() << endl;\n        return 2;\n    } catch (const exception& e) {\n        cerr << \"Error: \" << e.what() << endl;\n        return 1;\n    }\n"),
    ("src/tinymt64.h", "    x = random->status[0] ^ random->status[1];\n    x ^= x << TINYMT64_SH0;\n    x ^= x >> 32;\n    x ^= x << 32;\n", "    x = random->status[1] ^ random->status[0];\n    x = x ^ (x << TINYMT64_SH0);\n    x = (x >> 32) ^ x;\n    x = (x << 32) ^ x;\n"))

ref("reader-stdio",
    ("src/read_boundaries_file.cc", """vector<double> read_next_line(ifstream& f, string name)
{
    string line;

    getline(f, line);
    vector<double> steps = read_comma_delimited_doubles(line);

    return steps;
}
""", """static string read_whole_file(const string& filename)
{
    FILE* f = fopen(filename.c_str(), "rb");
    if (f == NULL) {
        throw runtime_error("Unable to read input file '" + filename + "'");
    }
    string contents;
    char chunk[65536];
    size_t got;
    while ((got = fread(chunk, 1, sizeof(chunk), f)) > 0) {
        contents.append(chunk, got);
    }
    const bool failed = ferror(f);
    fclose(f);
    if (failed) {
        throw runtime_error("Error reading input file '" + filename + "'");
    }
    return contents;
}

static vector<double> read_next_line(const string& contents, size_t& position, string name)
{
    if (position >= contents.size()) {
        throw runtime_error("Missing line for " + name);
    }
    size_t end = contents.find('\\n', position);
    if (end == string::npos) {
        end = contents.size();
    }
    const string line = contents.substr(position, end - position);
    position = end + 1;
    return read_comma_delimited_doubles(line);
}
"""),
    ("src/read_boundaries_file.cc", """    ifstream f(filename);
    if (!f.is_open()) {
        throw runtime_error("Unable to read input file '" + filename + "'");
    }
    f.exceptions(ifstream::failbit | ifstream::badbit);

    vector<double> b = read_next_line(f, "b_i");
    vector<double> B = read_next_line(f, "B_i");
""", """    const string contents = read_whole_file(filename);
    size_t position = 0;
    vector<double> b = read_next_line(contents, position, "b_i");
    vector<double> B = read_next_line(contents, position, "B_i");
"""),
    ("src/read_boundaries_file.cc", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n"))

ref("fft-raii",
    ("src/fftwconvolver.cc", "        lock_guard<mutex> lock(planner_mutex);\n        r2c_plans[index] = fftw_plan_dft_r2c_1d(rounded_size, r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT);\n",
     "        r2c_plans[index] = planned([&] { return fftw_plan_dft_r2c_1d(rounded_size, r2c_in, reinterpret_cast<fftw_complex*>(r2c_out), FFTW_ESTIMATE|FFTW_DESTROY_INPUT); });\n"),
    ("src/fftwconvolver.cc", "        lock_guard<mutex> lock(planner_mutex);\n        c2r_plans[index] = fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in), c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT);\n",
     "        c2r_plans[index] = planned([&] { return fftw_plan_dft_c2r_1d(rounded_size, reinterpret_cast<fftw_complex*>(c2r_in), c2r_out, FFTW_ESTIMATE|FFTW_DESTROY_INPUT); });\n"),
    ("src/fftwconvolver.cc", "int round_up(int n, int rounding)\n", """template<class F>
static fftw_plan planned(F make)
{
    lock_guard<mutex> lock(planner_mutex);
    fftw_plan plan = make();
    if (plan == NULL) {
        throw bad_alloc();
    }
    return plan;
}

static double* fftw_doubles(size_t n)
{
    double* p = fftw_alloc_real(n);
    if (p == NULL) {
        throw bad_alloc();
    }
    return p;
}

static complex<double>* fftw_complexes(size_t n)
{
    fftw_complex* p = fftw_alloc_complex(n);
    if (p == NULL) {
        throw bad_alloc();
    }
    return reinterpret_cast<complex<double>*>(p);
}

int round_up(int n, int rounding)
"""),
    ("src/fftwconvolver.cc", """        r2c_in = allocate_aligned_doubles(maximum_padded_input_size);
        r2c_out = allocate_aligned_complexes(maximum_padded_input_size);

        c2r_in = allocate_aligned_complexes(maximum_padded_input_size);
        c2r_out = allocate_aligned_doubles(maximum_padded_input_size);

        tmp_complex = allocate_aligned_complexes(maximum_padded_input_size);
""", """        const int spectrum_size = maximum_padded_input_size/2 + 1;
        r2c_in = fftw_doubles(maximum_padded_input_size);
        r2c_out = fftw_complexes(spectrum_size);

        c2r_in = fftw_complexes(spectrum_size);
        c2r_out = fftw_doubles(maximum_padded_input_size);

        tmp_complex = fftw_complexes(spectrum_size);
"""),
    ("src/fftwconvolver.cc", """    free_aligned_mem(r2c_in);
    free_aligned_mem(r2c_out);

    free_aligned_mem(c2r_in);
    free_aligned_mem(c2r_out);

    free_aligned_mem(tmp_complex);
""", """    fftw_free(r2c_in);
    fftw_free(r2c_out);

    fftw_free(c2r_in);
    fftw_free(c2r_out);

    fftw_free(tmp_complex);
"""))

ref("fft-shared-plans",
    ("src/fftwconvolver.cc", """    if (r2c_plans[index] == NULL) {
        lock_guard<mutex> lock(planner_mutex);
        r2c_plans[index]""", """    lock_guard<mutex> lock(planner_mutex);
    if (r2c_plans[index] == NULL) {
        r2c_plans[index]"""),
    ("src/fftwconvolver.cc", """    fftw_execute_dft_r2c(memoized_r2c_plan(padded_size), r2c_in, reinterpret_cast<fftw_complex*>(tmp_complex));
""", """    const fftw_plan forward = memoized_r2c_plan(padded_size);
    const fftw_plan backward = memoized_c2r_plan(padded_size);
    fftw_execute(forward);
    copy(r2c_out, r2c_out + padded_size/2 + 1, tmp_complex);
"""),
    ("src/fftwconvolver.cc", "    fftw_execute(memoized_r2c_plan(padded_size));\n\n", "    fftw_execute(forward);\n\n"),
    ("src/fftwconvolver.cc", "    fftw_execute(memoized_c2r_plan(padded_size));\n    std::memcpy(output, c2r_out, size * sizeof(double));\n", "    fftw_execute(backward);\n    copy(c2r_out, c2r_out + size, output);\n"),
    ("src/fftwconvolver.cc", "#include <cstring>\n", "#include <cstring>\n#include <algorithm>\n"))

ref("mc-noncrossings",
    ("src/crossprob_mc.cc", "    RandomNumberGenerator rng(time(NULL) + (n<<20));\n", "    const uint64_t now = chrono::system_clock::to_time_t(chrono::system_clock::now());\n    RandomNumberGenerator rng(now + (static_cast<uint64_t>(n)<<20));\n"),
    ("src/crossprob_mc.cc", "#include <ctime>\n", "#include <ctime>\n#include <chrono>\n"),
    ("src/crossprob_mc.cc", "    if ((b.size() > 0) && ((long)b.size() < n)) {\n        return 1.0;\n    }\n", "    if (!b.empty() && (static_cast<long>(b.size()) < n)) {\n        return 1.0;\n    }\n"))
