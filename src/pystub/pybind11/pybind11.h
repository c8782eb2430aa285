// Stand-in for pybind11 (not installed here): records everything the binding code registers and
// carries calls out with pybind11's rules (positional, named and default arguments; overloads tried
// in order, first without and then with conversions), so that the real binding code can be driven
// by name without an interpreter.
#ifndef STUB_PYBIND11_H
#define STUB_PYBIND11_H
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>
namespace pybind11
{
// A Python object: a bool, int, float or str (owned), or a bound C++ object (owned or referenced).
struct Ref
{
    void* p; std::type_index t; std::shared_ptr<void> own; bool builtin;   // builtin: needs no registered class
    Ref() : p(0), t(typeid(void)), builtin(false) {}
    bool none() const { return !p; }
    template <class T> T& as() const { if (t != typeid(T)) throw std::runtime_error(std::string("result has type ") + t.name()); return *(T*)p; }
    template <class T> bool is() const { return p && t == typeid(T); }
};
template <class T> struct IsFunction : std::false_type {};
template <class R, class... A> struct IsFunction<std::function<R(A...)>> : std::true_type {};
template <class T> Ref own(const T& v) { Ref r; auto s = std::make_shared<T>(v); r.p = s.get(); r.own = s; r.t = typeid(T); r.builtin = std::is_arithmetic<T>::value || std::is_same<T, std::string>::value || IsFunction<T>::value; return r; }
template <class T> Ref refer(T& v) { typedef typename std::remove_cv<T>::type D; Ref r; r.p = (void*)&v; r.t = typeid(D); r.builtin = IsFunction<D>::value; return r; }
// conversion of literals to the Python types
inline Ref py(bool v) { return own<bool>(v); }
inline Ref py(int v) { return own<long long>(v); }
inline Ref py(unsigned v) { return own<long long>(v); }
inline Ref py(long v) { return own<long long>(v); }
inline Ref py(unsigned long v) { return own<long long>((long long)v); }
inline Ref py(double v) { return own<double>(v); }
inline Ref py(float v) { return own<double>(v); }
inline Ref py(const char* v) { return own<std::string>(v); }
inline Ref py(const std::string& v) { return own<std::string>(v); }
template <class T> Ref py(const T& v) { return own<T>(v); }

struct TypeError : std::runtime_error { TypeError(const std::string& s) : std::runtime_error(s) {} };
struct ImportError : std::runtime_error { ImportError(const std::string& s) : std::runtime_error(s) {} };

// ------------------------------------------------------------------ argument conversion
template <class P, class = void> struct Caster                        // bound classes
{
    typedef typename std::decay<P>::type D;
    D* p; Caster() : p(0) {}
    bool load(const Ref& r, bool) { if (!r.is<D>()) return false; p = (D*)r.p; return true; }
    P get() { return static_cast<P>(*p); }
};
template <class P> struct Caster<P, typename std::enable_if<std::is_same<typename std::decay<P>::type, bool>::value>::type>
{
    bool v = false;
    bool load(const Ref& r, bool convert)
    {
        if (r.is<bool>()) { v = r.as<bool>(); return true; }
        if (convert && r.is<long long>()) { v = r.as<long long>() != 0; return true; }
        if (convert && r.is<double>()) { v = r.as<double>() != 0; return true; }
        return false;
    }
    P get() { return static_cast<P>(v); }
};
template <class P> struct Caster<P, typename std::enable_if<std::is_integral<typename std::decay<P>::type>::value && !std::is_same<typename std::decay<P>::type, bool>::value>::type>
{
    typedef typename std::decay<P>::type D;
    D v = 0;
    bool load(const Ref& r, bool)
    {
        long long x;
        if (r.is<long long>()) x = r.as<long long>(); else if (r.is<bool>()) x = r.as<bool>(); else return false;
        if (std::is_unsigned<D>::value && x < 0) return false;
        v = (D)x; return (long long)v == x;
    }
    P get() { return static_cast<P>(v); }
};
template <class P> struct Caster<P, typename std::enable_if<std::is_floating_point<typename std::decay<P>::type>::value>::type>
{
    typedef typename std::decay<P>::type D;
    D v = 0;
    bool load(const Ref& r, bool convert)
    {
        if (r.is<double>()) { v = r.as<double>(); return true; }
        if (convert && r.is<long long>()) { v = (D)r.as<long long>(); return true; }
        if (convert && r.is<bool>()) { v = r.as<bool>(); return true; }
        return false;
    }
    P get() { return static_cast<P>(v); }
};
template <class P> struct Caster<P, typename std::enable_if<std::is_same<typename std::decay<P>::type, std::string>::value>::type>
{
    std::string v;
    bool load(const Ref& r, bool) { if (!r.is<std::string>()) return false; v = r.as<std::string>(); return true; }
    P get() { return static_cast<P>(v); }
};
// results
template <class R> struct Result { static Ref make(R&& v) { return py(typename std::decay<R>::type(v)); } };
template <class T> struct Result<T&> { static Ref make(T& v) { typedef typename std::remove_cv<T>::type D; if (std::is_arithmetic<D>::value || std::is_same<D, std::string>::value) return py(D(v)); return refer(v); } };

// ------------------------------------------------------------------ extras
struct module_local { module_local(bool = true) {} };
struct dynamic_attr {};
struct name { const char* n; name(const char* s) : n(s) {} };
struct is_operator {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <size_t N, size_t P> struct keep_alive {};
template <class...> struct call_guard {};
struct gil_scoped_release {};
struct arg;
struct arg_v { std::string n; Ref v; };
struct arg
{
    std::string n; arg(const char* s) : n(s) {}
    arg noconvert(bool = true) const { return *this; }
    arg none(bool = true) const { return *this; }
    template <class T> arg_v operator=(const T& v) const { arg_v a; a.n = n; a.v = py(v); return a; }
    arg_v operator=(const char* v) const { arg_v a; a.n = n; a.v = py(v); return a; }
};
namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }

// ------------------------------------------------------------------ registry
typedef std::vector<Ref> Args;
typedef std::vector<std::pair<std::string, Ref>> Kw;
struct Overload
{
    size_t n = 0;                                          // parameters, without self
    std::vector<std::string> names; std::vector<Ref> defaults; std::vector<bool> hasDefault;
    std::function<bool(const Args&, bool, Ref&)> run;      // all arguments, self first for methods
    void extra(const arg& a) { names.push_back(a.n); defaults.push_back(Ref()); hasDefault.push_back(false); }
    void extra(const arg_v& a) { names.push_back(a.n); defaults.push_back(a.v); hasDefault.push_back(true); }
    template <class T> void extra(const T&) {}
};
struct Property { std::function<Ref(const Ref&)> get; std::function<bool(const Ref&, const Ref&)> set; };
struct ClassInfo
{
    std::string name; std::type_index t; bool isVector;
    std::map<std::string, std::vector<Overload>> methods;  // constructors under "__init__"
    std::map<std::string, Property> props;
    ClassInfo() : t(typeid(void)), isVector(false) {}
};
struct Registry { std::map<std::string, std::shared_ptr<ClassInfo>> classes; std::map<std::string, std::vector<Overload>> functions; std::map<std::string, Ref> values; };

inline bool attempt(const Overload& o, const Ref* self, const Args& a, const Kw& kw, bool convert, Ref& out)
{
    if (a.size() > o.n) return false;
    Args full; if (self) full.push_back(*self);
    std::vector<bool> used(kw.size(), false);
    for (size_t i = 0; i < o.n; i++)
    {
        bool found = false; Ref v;
        if (i < a.size()) { v = a[i]; found = true; }
        if (i < o.names.size())
        {
            for (size_t k = 0; k < kw.size(); k++) if (kw[k].first == o.names[i]) { if (found) return false; v = kw[k].second; found = true; used[k] = true; }
            if (!found && o.hasDefault[i]) { v = o.defaults[i]; found = true; }
        }
        if (!found) return false;
        full.push_back(v);
    }
    for (bool u : used) if (!u) return false;
    return o.run(full, convert, out);
}
inline Ref dispatch(const std::string& what, const std::vector<Overload>& v, const Ref* self, const Args& a, const Kw& kw)
{
    Ref out;
    for (int convert = v.size() > 1 ? 0 : 1; convert < 2; convert++) for (const Overload& o : v) if (attempt(o, self, a, kw, convert, out)) return out;
    throw TypeError(what + ": incompatible arguments");
}
class module_
{
public:
    Registry* r;
    module_(Registry* q = 0) : r(q) {}
    module_& doc() { return *this; }
    template <class T> module_& operator=(const T&) { return *this; }
    template <class F, class... X> module_& def(const char* n, F f, const X&... x);
    template <class T> void attr(const char*, T&&) {}
};
typedef module_ module;

// ------------------------------------------------------------------ callables
template <size_t... I> struct Seq {};
template <size_t N, size_t... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <size_t... I> struct Mk<0, I...> { typedef Seq<I...> type; };
template <class R> struct Call { template <class F, class T, size_t... I> static Ref go(F& f, T& t, Seq<I...>) { return Result<R>::make(f(std::get<I>(t).get()...)); } };
template <> struct Call<void> { template <class F, class T, size_t... I> static Ref go(F& f, T& t, Seq<I...>) { f(std::get<I>(t).get()...); return Ref(); } };
template <class T, size_t N> struct LoadAll { static bool go(T& t, const Args& a, bool c) { return std::get<N - 1>(t).load(a[N - 1], c) && LoadAll<T, N - 1>::go(t, a, c); } };
template <class T> struct LoadAll<T, 0> { static bool go(T&, const Args&, bool) { return true; } };
template <class R, class... A> Overload wrap(std::function<R(A...)> f, bool method)
{
    Overload o; o.n = sizeof...(A) - (method ? 1 : 0);
    o.run = [f](const Args& a, bool convert, Ref& out) {
        if (a.size() != sizeof...(A)) return false;
        std::tuple<Caster<A>...> t;
        if (!LoadAll<decltype(t), sizeof...(A)>::go(t, a, convert)) return false;
        out = Call<R>::go(f, t, typename Mk<sizeof...(A)>::type()); return true; };
    return o;
}
template <class F> struct Sig : Sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const> { typedef std::function<R(A...)> type; };
template <class C, class R, class... A> struct Sig<R (C::*)(A...)> { typedef std::function<R(A...)> type; };
template <class T, class F> Overload callable(F f, bool method) { return wrap(typename Sig<F>::type(f), method); }
template <class T, class R, class C, class... A> Overload callable(R (C::*f)(A...), bool) { return wrap(std::function<R(T&, A...)>([f](T& o, A... a) -> R { return (o.*f)(static_cast<A>(a)...); }), true); }
template <class T, class R, class C, class... A> Overload callable(R (C::*f)(A...) const, bool) { return wrap(std::function<R(T&, A...)>([f](T& o, A... a) -> R { return (o.*f)(static_cast<A>(a)...); }), true); }
template <class T, class R, class... A> Overload callable(R (*f)(A...), bool method) { return wrap(std::function<R(A...)>(f), method); }
inline void finish(Overload& o, const std::string& what)
{
    if (!o.names.empty() && o.names.size() != o.n) throw ImportError(what + ": the number of argument annotations does not match the number of arguments");
}
template <class F, class... X> module_& module_::def(const char* n, F f, const X&... x)
{
    Overload o = callable<int>(f, false); int z[] = {0, (o.extra(x), 0)...}; (void)z; finish(o, n); r->functions[n].push_back(o); return *this;
}
template <class... A> struct Init {};
template <class... A> Init<A...> init() { return Init<A...>(); }
template <class F> struct Factory { F f; };
template <class F> Factory<F> init(F f) { return Factory<F>{f}; }

template <class T, class... Options> class class_
{
    std::shared_ptr<ClassInfo> c;
public:
    template <class... X> class_(module_& m, const char* n, const X&...)
    {
        if (m.r->classes.count(n)) throw ImportError(std::string("class ") + n + " is registered twice");
        for (auto& q : m.r->classes) if (q.second->t == typeid(T)) throw ImportError(std::string("the type of ") + n + " is registered twice");
        c = std::make_shared<ClassInfo>(); c->name = n; c->t = typeid(T); m.r->classes[n] = c;
    }
    ClassInfo& info() { return *c; }
    template <class... A, class... X> class_& def(const Init<A...>&, const X&... x)
    {
        Overload o = wrap(std::function<Ref(A...)>([](A... a) { Ref r; auto s = std::make_shared<T>(static_cast<A>(a)...); r.p = s.get(); r.own = s; r.t = typeid(T); return r; }), false);
        return add("__init__", o, x...);
    }
    template <class F, class... X> class_& def(const Factory<F>& f, const X&... x) { Overload o = callable<T>(f.f, false); return add("__init__", o, x...); }
    template <class F, class... X> class_& def(const char* n, F f, const X&... x) { Overload o = callable<T>(f, true); return add(n, o, x...); }
    template <class F, class... X> class_& def_static(const char* n, F f, const X&... x) { Overload o = callable<T>(f, false); return add(n, o, x...); }
    template <class D, class B, class... X> class_& def_readonly(const char* n, D B::*m, const X&...)
    {
        prop(n).get = [m](const Ref& s) { return Result<const D&>::make(s.as<T>().*m); }; return *this;
    }
    template <class D, class B, class... X> class_& def_readwrite(const char* n, D B::*m, const X&... x)
    {
        def_readonly(n, m, x...);
        c->props[n].set = [m](const Ref& s, const Ref& v) { Caster<const D&> q; if (!q.load(v, true)) return false; s.as<T>().*m = q.get(); return true; };
        return *this;
    }
    template <class G, class... X> class_& def_property_readonly(const char* n, G g, const X&...)
    {
        Overload o = callable<T>(g, true);
        prop(n).get = [o](const Ref& s) { Ref out; if (!o.run(Args(1, s), true, out)) throw TypeError("getter"); return out; }; return *this;
    }
    template <class G, class S, class... X> class_& def_property(const char* n, G g, S f, const X&... x)
    {
        def_property_readonly(n, g, x...);
        Overload o = callable<T>(f, true);
        c->props[n].set = [o](const Ref& s, const Ref& v) { Ref out; Args a(1, s); a.push_back(v); return o.run(a, true, out); };
        return *this;
    }
private:
    Property& prop(const char* n) { c->props[n] = Property(); return c->props[n]; }
    template <class... X> class_& add(const char* n, Overload& o, const X&... x)
    {
        int z[] = {0, (o.extra(x), 0)...}; (void)z;
        finish(o, c->name + "." + n);
        c->methods[n].push_back(o); return *this;
    }
};
template <> struct Result<Ref> { static Ref make(Ref&& v) { return v; } };

// ------------------------------------------------------------------ the "interpreter"
inline std::map<std::type_index, ClassInfo*> byType(const Registry& r) { std::map<std::type_index, ClassInfo*> m; for (auto& c : r.classes) m[c.second->t] = c.second.get(); return m; }
struct Interpreter
{
    Registry r; std::map<std::type_index, ClassInfo*> types;
    ClassInfo& cls(const Ref& o) { auto i = types.find(o.t); if (i == types.end()) throw TypeError(std::string("unregistered type ") + o.t.name()); return *i->second; }
    const Ref& known(const Ref& o, const std::string& what) { if (o.p && !o.builtin) { auto i = types.find(o.t); if (i == types.end()) throw TypeError(what + ": unable to convert to a Python object, its type is not registered"); } return o; }
    ClassInfo& cls(const std::string& n) { auto i = r.classes.find(n); if (i == r.classes.end()) throw TypeError("no class " + n); return *i->second; }
    Ref make(const std::string& n, const Args& a = Args(), const Kw& kw = Kw()) { ClassInfo& c = cls(n); return dispatch(n, c.methods["__init__"], 0, a, kw); }
    Ref call(const Ref& self, const std::string& n, const Args& a = Args(), const Kw& kw = Kw())
    {
        ClassInfo& c = cls(self); auto i = c.methods.find(n);
        if (i == c.methods.end()) throw TypeError(c.name + " has no method " + n);
        return known(dispatch(c.name + "." + n, i->second, &self, a, kw), c.name + "." + n);
    }
    Ref get(const Ref& self, const std::string& n)
    {
        ClassInfo& c = cls(self); auto i = c.props.find(n);
        if (i == c.props.end()) throw TypeError(c.name + " has no attribute " + n);
        Ref v = i->second.get(self);
        if (!v.own) v.own = self.own;
        return known(v, c.name + "." + n);
    }
    void set(const Ref& self, const std::string& n, const Ref& v)
    {
        ClassInfo& c = cls(self); auto i = c.props.find(n);
        if (i == c.props.end()) throw TypeError(c.name + " has no attribute " + n);
        if (!i->second.set) throw TypeError(c.name + "." + n + " cannot be set");
        if (!i->second.set(self, v)) throw TypeError(c.name + "." + n + ": wrong type");
    }
};
void stub_module_init(module_& m);
}
#define PYBIND11_MODULE(NAME, M) void pybind11::stub_module_init(pybind11::module_& M)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_OVERLOAD_CAST
namespace pybind11 { template <class... A> struct overload_cast_impl {
    template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; } };
template <class... A> static constexpr overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{}; }
#endif
