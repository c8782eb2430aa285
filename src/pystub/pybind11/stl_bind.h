#ifndef STUB_PYBIND11_STL_BIND_H
#define STUB_PYBIND11_STL_BIND_H
#include "pybind11.h"
namespace pybind11
{
template <class V, class... X> class_<V> bind_vector(module_& m, const char* n, const X&...)
{
    typedef typename V::value_type E;
    class_<V> c(m, n);
    c.info().isVector = true;
    c.def(init<>());
    c.def(init<const V&>());
    c.def("append", [](V& v, const E& e) { v.push_back(e); });
    c.def("extend", [](V& v, const V& w) { v.insert(v.end(), w.begin(), w.end()); });
    c.def("__len__", [](V& v) { return (unsigned)v.size(); });
    return c;
}
}
#endif
