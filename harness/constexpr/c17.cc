// Evaluates the generated tapes in VP_CASES at compile time and again at run
// time; --list prints one line per case.
#include <cstdio>
#include <vector>

#include VP_SUITE_HEADER

namespace c17 {
#define X(n, ...) using n = __VA_ARGS__;
VP_POLICIES(X)
VP_POLICIES2(X)
#undef X

#define CASE(I, P, ...)                             \
  constexpr unsigned char t##I[] = {__VA_ARGS__};   \
  constexpr Result r##I = run<P>(t##I, sizeof(t##I));
#include VP_CASES
#undef CASE

static const Case cases[] = {
#define CASE(I, P, ...) {#I " " #P, t##I, int(sizeof(t##I)), r##I, &run<P>},
#include VP_CASES
#undef CASE
    {nullptr, nullptr, 0, {}, nullptr}};

}  // namespace c17

int main() {
  using namespace c17;
  for (const Case* c = cases; c->name; ++c) {
    std::vector<unsigned char> tape(c->tape, c->tape + c->n);
    Result r = c->fn(tape.data(), c->n);
    const Result& k = c->at_compile_time;
    std::printf("case %s compile %d@%d run %d@%d same %d ops %d hard %d\n", c->name,
                k.fail, k.step, r.fail, r.step, int(r == k), r.ops, r.hard);
    std::fflush(stdout);
  }
  return 0;
}
