#include "prop.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <unordered_set>

namespace vp {
std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
RegisterSuite::RegisterSuite(const char* name, int weight, SuiteFn fn) {
  // Sorted by name: independent of link order.
  std::vector<Suite>& s = suites();
  std::size_t at = s.size();
  while (at > 0 && std::strcmp(s[at - 1].name, name) > 0) --at;
  s.insert(s.begin() + static_cast<std::ptrdiff_t>(at), Suite{name, weight, fn});
}

static void run_one(const Suite& s, Ctx& c) {
  L.reset();
  try {
    s.fn(c);
  } catch (const std::exception& e) {
    c.fail(std::string("unexpected exception: ") + e.what());
  } catch (...) {
    c.fail("unexpected exception");
  }
  L.window = false;
  if (!L.blocks.empty()) L.error(RES, "blocks remain at the end of the case");
  if (!L.objects.empty())
    L.error(RES, "tracked objects remain at the end of the case");
  if (L.err_cat) c.fail("ledger: " + L.err);
  L.reset();
}

static std::uint64_t hash_tape(const char* name, const std::vector<std::uint32_t>& t) {
  std::uint64_t h = 1469598103934665603ull;
  for (const char* p = name; *p; ++p)
    h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
  for (std::uint32_t x : t) h = (h ^ x) * 1099511628211ull;
  return h;
}
static std::string tape_text(const Suite& s, const std::vector<std::uint32_t>& t) {
  std::string o = std::string("suite ") + s.name + "\ntape";
  for (std::uint32_t x : t) o += " " + std::to_string(x);
  return o + "\n";
}
static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (static_cast<unsigned char>(ch) < 32 ||
               static_cast<unsigned char>(ch) > 126) {
      o += '?';
    } else {
      o += ch;
    }
  }
  return o + "\"";
}
}  // namespace vp

using namespace vp;

#ifdef VP_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
  if (n < 2) return 0;
  static std::vector<Suite> random;
  if (random.empty())
    for (const Suite& s : suites())
      if (s.weight > 0) random.push_back(s);
  const Suite& s = random[d[0] % random.size()];
  Ctx c;
  c.replaying = true;
  for (std::size_t i = 1; i < n && i < 600; ++i) c.tape.push_back(d[i]);
  run_one(s, c);
  if (c.failed) {
    std::fprintf(stderr, "VP-FAIL %s\nVP-CASE-BEGIN\n%sVP-CASE-END\n",
                 c.msg.c_str(), tape_text(s, c.tape).c_str());
    std::abort();
  }
  return 0;
}
#else
// The current case (suite name at 0, choices so far at 256), for attribution of
// a crash.
static char* shared = nullptr;
static const std::size_t shared_size = 1 << 18;

int main(int argc, char** argv) {
  std::string replay, cur, only, decode;
  std::uint64_t seed = 1;
  long cases = 1000;
  int nsamples = 2;
  double budget = 1e9;
  const std::clock_t t0 = std::clock();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") seed = std::strtoull(v.c_str(), nullptr, 0);
    else if (k == "--cases") cases = std::atol(v.c_str());
    else if (k == "--replay") replay = v;
    else if (k == "--current") cur = v;
    else if (k == "--samples") nsamples = std::atoi(v.c_str());
    else if (k == "--budget") budget = std::atof(v.c_str());
    else if (k == "--suite") only = v;
    else if (k == "--decode") decode = v;
    else return 2;
  }
  if (!decode.empty()) {  // a libFuzzer input as a replayable case
    FILE* fp = std::fopen(decode.c_str(), "rb");
    if (!fp) return 2;
    unsigned char d[600];
    std::size_t n = std::fread(d, 1, sizeof d, fp);
    std::fclose(fp);
    std::vector<Suite> random;
    for (const Suite& s : suites())
      if (s.weight > 0) random.push_back(s);
    if (n < 2 || random.empty()) return 2;
    std::vector<std::uint32_t> t(d + 1, d + n);
    std::printf("%s", tape_text(random[d[0] % random.size()], t).c_str());
    return 0;
  }
  if (!replay.empty()) {
    FILE* fp = std::fopen(replay.c_str(), "rb");
    if (!fp) return 2;
    std::string text;
    char buf[4096];
    std::size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, fp)) > 0) text.append(buf, n);
    std::fclose(fp);
    std::istringstream in(text);
    std::string line, name;
    Ctx c;
    c.replaying = true;
    c.want_note = true;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::string w;
      l >> w;
      if (w == "suite") l >> name;
      if (w == "tape") {
        std::uint32_t x;
        while (l >> x) c.tape.push_back(x);
      }
    }
    for (const Suite& s : suites()) {
      if (name != s.name) continue;
      run_one(s, c);
      std::printf("%s\n", c.notes.str().c_str());
      if (c.failed) {
        std::printf("FAIL %s\n", c.msg.c_str());
        std::fflush(stdout);
        _exit(3);
      }
      std::printf("PASS\n");
      return 0;
    }
    return 2;
  }
  if (!cur.empty()) {
    int fd = ::open(cur.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ::ftruncate(fd, shared_size)) return 2;
    shared = static_cast<char*>(::mmap(nullptr, shared_size,
                                       PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  int total_weight = 0;
  for (const Suite& s : suites()) total_weight += s.weight;
  long done = 0, checks = 0, distinct = 0;
  std::map<std::string, long> classes;
  std::vector<std::string> samples;
  double used = 0;
  for (const Suite& s : suites()) {
    if (!only.empty() && only != s.name) continue;
    long n = s.weight ? (cases * s.weight + total_weight - 1) / total_weight : 1;
    used += s.weight ? budget * s.weight / total_weight : 0;
    std::unordered_set<std::uint64_t> seen;
    int kept = 0;
    std::uint64_t base = hash_tape(s.name, {}) + seed * 1000003ull;
    for (long k = 0; k < n; ++k) {
      if (k && double(std::clock() - t0) / CLOCKS_PER_SEC > used) break;
      Ctx c;
      // Each case has its own stream, so that a case can be re-created alone.
      c.rng = Rng(base + static_cast<std::uint64_t>(k) * 0x2545f4914f6cdd1dull);
      c.want_note = kept < nsamples;
      if (shared) {
        std::snprintf(shared, 256, "suite %s\n", s.name);
        c.mirror = reinterpret_cast<std::uint32_t*>(shared + 256);
        c.mirror_cap = (shared_size - 256) / 4 - 1;
        c.mirror[0] = 0;
      }
      run_one(s, c);
      ++done;
      checks += c.checks;
      if (c.failed) {
        std::printf("FAIL {\"msg\": %s, \"case\": %s}\n", json_str(c.msg).c_str(),
                    json_str(tape_text(s, c.tape)).c_str());
        std::fflush(stdout);
        _exit(3);
      }
      ++classes[std::string(s.name) + ": cases"];
      for (const char* q : c.classes) ++classes[std::string(s.name) + ": " + q];
      if (c.nontrivial_ && seen.insert(hash_tape(s.name, c.tape)).second) {
        ++distinct;
        if (kept < nsamples && !c.notes.str().empty()) {
          ++kept;
          samples.push_back(std::string(s.name) + ": " + c.notes.str());
        }
      }
    }
  }
  std::printf("OK {\"cases\": %ld, \"execs\": %ld, \"distinct\": %ld, \"features\": {",
              done, checks, distinct);
  bool first = true;
  for (auto& q : classes) {
    std::printf("%s%s: %ld", first ? "" : ", ", json_str(q.first).c_str(), q.second);
    first = false;
  }
  std::printf("}, \"samples\": [");
  for (std::size_t q = 0; q < samples.size(); ++q)
    std::printf("%s%s", q ? ", " : "", json_str(samples[q]).c_str());
  std::printf("]}\n");
  return 0;
}
#endif
