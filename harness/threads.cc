// Calls the library from several threads of one process at the same time.
//   threads T CALLS SEED < pool        T = 0: every call once, in order, in the main thread
// pool: one request per line, "<fn> <nb> <nB> v..." (fn as in driver.cc) or "file <path>" (the boundaries-file reader)
// Output: one line per request and distinct outcome, "<request> <times> <outcome>", then
//   "S <calls> <most calls under way at once> <pairs of requests seen under way together> <a number identifying the order of the monitored events>"
//   and what harness/planmon.c (preloaded) reports.
// All arguments are shared by all threads, read only; nothing is computed before the threads start together.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <dlfcn.h>
#include "ecdf1_mns2016.hh"
#include "ecdf1_new.hh"
#include "ecdf2.hh"
#include "read_boundaries_file.hh"

// Hexadecimal floating point, or "x" and the 16 digits of the bits.
static double number(const char* s)
{
    if (*s != 'x') return strtod(s, NULL);
    uint64_t u = strtoull(s + 1, NULL, 16);
    double d;
    memcpy(&d, &u, sizeof d);
    return d;
}

#ifdef __SANITIZE_THREAD__
// These write signgam, which the library never reads; the sanitizer would report just that.
extern "C" {
double lgamma_r(double, int*);
float lgammaf_r(float, int*);
long double lgammal_r(long double, int*);
double lgamma(double x) { int s; return lgamma_r(x, &s); }
float lgammaf(float x) { int s; return lgammaf_r(x, &s); }
long double lgammal(long double x) { int s; return lgammal_r(x, &s); }
}
#endif

struct Request { std::string fn, path; std::vector<double> b, B; };

static std::string hex(double x)
{
    char s[64];
    snprintf(s, sizeof s, "%a", x);
    return s;
}

static std::string outcome(const Request& q)
{
    try {
        double r = 0;
        if (q.fn == "file") {
            std::pair<std::vector<double>, std::vector<double> > p = read_and_check_boundaries_file(q.path);
            std::string s = "F";
            for (size_t i = 0; i < p.first.size(); ++i) s += " " + hex(p.first[i]);
            s += " |";
            for (size_t i = 0; i < p.second.size(); ++i) s += " " + hex(p.second[i]);
            return s;
        }
        if (q.fn == "b.new") r = ecdf1_new_b(q.b);
        else if (q.fn == "B.new") r = ecdf1_new_B(q.B);
        else if (q.fn == "b.mns") r = ecdf1_mns2016_b(q.b);
        else if (q.fn == "B.mns") r = ecdf1_mns2016_B(q.B);
        else if (q.fn == "2.ks") r = ecdf2(q.b, q.B, false);
        else if (q.fn == "2.fft") r = ecdf2(q.b, q.B, true);
        else exit(77);
        return "R " + hex(r);
    } catch (std::exception& e) {
        std::string s = std::string("E ") + e.what();
        for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') s[i] = ' ';
        return s;
    } catch (...) {
        return "X";
    }
}

static const int MAX_THREADS = 64;
static std::atomic<int> current[MAX_THREADS];       // the request under way in each thread, or -1

int main(int argc, char** argv)
{
    if (argc != 4) return 77;
    int T = atoi(argv[1]), calls = atoi(argv[2]);
    uint64_t seed = strtoull(argv[3], NULL, 10);
    std::vector<Request> pool;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        Request q;
        is >> q.fn;
        if (q.fn == "file") {
            is >> q.path;
        } else {
            size_t nb, nB;
            std::string tok;
            is >> nb >> nB;
            for (size_t i = 0; i < nb + nB; ++i) {
                is >> tok;
                (i < nb ? q.b : q.B).push_back(number(tok.c_str()));
            }
        }
        pool.push_back(q);
    }
    const std::vector<Request>& requests = pool;
    std::vector<std::map<std::string, long> > seen(pool.size());
    int most = 1;
    size_t pairs = 0;
    long made = 0;
    if (T == 0) {
        for (size_t i = 0; i < requests.size(); ++i, ++made) ++seen[i][outcome(requests[i])];
    } else {
        std::vector<std::vector<std::pair<int, std::string> > > got(T);
        std::vector<std::set<int> > together(T);
        std::vector<int> peak(T, 0);
        std::mutex m;
        std::condition_variable cv;
        int waiting = 0;
        bool go = false;
        for (int t = 0; t < T; ++t) current[t].store(-1, std::memory_order_relaxed);
        std::vector<std::thread> threads;
        for (int t = 0; t < T; ++t) {
            threads.push_back(std::thread([&, t] {
                {
                    std::unique_lock<std::mutex> l(m);
                    ++waiting;
                    cv.notify_all();
                    while (!go) cv.wait(l);
                }
                uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1 + t * 0xbf58476d1ce4e5b9ull;
                int fixed = seed % 3 == 0 ? (int)(seed / 3 % requests.size()) : -1;      // everyone the same request first
                for (int k = 0; k < calls; ++k) {
                    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                    int i = k == 0 && fixed >= 0 ? fixed : (int)((x >> 20) % requests.size());
                    current[t].store(i, std::memory_order_relaxed);         // relaxed: orders nothing, so it hides no race from the sanitizer
                    int n = 0;
                    for (int u = 0; u < T; ++u) {
                        int o = current[u].load(std::memory_order_relaxed);
                        if (o >= 0) ++n;
                        if (o >= 0 && u != t) together[t].insert(i < o ? i * 10000 + o : o * 10000 + i);
                    }
                    if (n > peak[t]) peak[t] = n;
                    got[t].push_back(std::make_pair(i, outcome(requests[i])));
                    current[t].store(-1, std::memory_order_relaxed);
                }
            }));
        }
        {
            std::unique_lock<std::mutex> l(m);
            while (waiting < T) cv.wait(l);
            go = true;
            cv.notify_all();
        }
        for (int t = 0; t < T; ++t) threads[t].join();
        std::set<int> all;
        for (int t = 0; t < T; ++t) {
            for (size_t k = 0; k < got[t].size(); ++k, ++made) ++seen[got[t][k].first][got[t][k].second];
            all.insert(together[t].begin(), together[t].end());
            if (peak[t] > most) most = peak[t];
        }
        pairs = all.size();
    }
    for (size_t i = 0; i < seen.size(); ++i)
        for (std::map<std::string, long>::const_iterator it = seen[i].begin(); it != seen[i].end(); ++it) printf("%zu %ld %s\n", i, it->second, it->first.c_str());
    uint64_t (*order)(void) = (uint64_t (*)(void))dlsym(RTLD_DEFAULT, "pm_order");
    printf("S %ld %d %zu %llu\n", made, most, pairs, order ? (unsigned long long)order() : 0ull);
    void (*report)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, "pm_report");
    fflush(stdout);
    if (report) report();
    return 0;
}
