// One demonstration program, compiled on its own inside a namespace (demo_*.cpp define DEMO_NS, DEMO_FILE and the
// names of its limits).  With DEMO_SKIP (it cannot be compiled in this way) it is left out.
#include "demo_api.hpp"
#define DEMO_STR2(x) #x
#define DEMO_STR(x) DEMO_STR2(x)
#define DEMO_CAT2(a, b) a##b
#define DEMO_CAT(a, b) DEMO_CAT2(a, b)
namespace demos
{
#if !defined DEMO_SKIP && __has_include(DEMO_FILE)
// What a demo does not (or no longer) define resolves to these, and is then left out.
struct Missing {};
Missing computeSensitivity(...); Missing computeConstraintSensitivity(...); Missing computeObjective(...); Missing computeMismatch(...);
Missing computePerimeter(...); Missing computePointLength(...); Missing computePerimeterWeight(...); Missing computeCentreOfMass(...);
Missing computeBiasPotential(...); Missing isAccepted(...);
static Missing points, reduce, uppergravityCutOff, lowergravityCutOff, gravityRange, upperLobeCentre, lowerLobeCentre, lobeSeparation;
template <class R, class F, class... A> void set(std::function<R(A...)>& slot, F f)
{
    if constexpr (std::is_invocable_v<F, A...>)
        if constexpr (!std::is_same_v<std::invoke_result_t<F, A...>, Missing> && std::is_invocable_r_v<R, F, A...>) slot = f;
}
template <class T, class U> bool put(T& t, U u) { if constexpr (std::is_assignable_v<T&, U> && !std::is_same_v<T, Missing>) { t = u; return true; } else { return false; } }
template <class U> bool put(Missing&, U) { return false; }
#define GET(slot, name) set(slot, [](auto&&... a) -> decltype(name(std::forward<decltype(a)>(a)...)) { return name(std::forward<decltype(a)>(a)...); })
#define main demo_main
namespace DEMO_NS {
#include DEMO_FILE
static void get(Api& a)
{
    a.name = DEMO_STR(DEMO_NS); a.prog = [](int n, char** v) { return demo_main(n, v); };
    GET(a.sensitivity, computeSensitivity); if (!a.sensitivity) GET(a.sensitivity, computeConstraintSensitivity);
    GET(a.mismatch, computeObjective); if (!a.mismatch) GET(a.mismatch, computeMismatch);
    GET(a.perimeter, computePerimeter); GET(a.pointLength, computePointLength); GET(a.weight, computePerimeterWeight); GET(a.centre, computeCentreOfMass);
    GET(a.bias, computeBiasPotential); GET(a.accepted, isAccepted);
    a.globals = [](std::vector<BP>* p, double u, double l, double r) { return put(points, p) && put(DEMO_UPPER, u) && put(DEMO_LOWER, l) && put(DEMO_RANGE, u - l) && put(reduce, r); };
}
}
#undef main
bool DEMO_CAT(get_, DEMO_NS)(Api& a) { DEMO_NS::get(a); return true; }
#else
bool DEMO_CAT(get_, DEMO_NS)(Api&) { return false; }
#endif
}
