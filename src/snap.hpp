// Byte-exact snapshots of the observable (public) state of the library's objects.
#ifndef SNAP_HPP
#define SNAP_HPP
#include "slsm_all.hpp"
namespace snap
{
typedef std::string S;
inline void u(S& s, unsigned v) { s.append((const char*)&v, sizeof v); }
template <class T> void raw(S& s, const T& v) { s.append((const char*)&v, sizeof v); }    // possibly never set
inline void d(S& s, double v) { s.append((const char*)&v, sizeof v); }
inline void v(S& s, const std::vector<double>& a) { u(s, a.size()); s.append((const char*)a.data(), a.size() * sizeof(double)); }
inline void v(S& s, const std::vector<unsigned>& a, size_t n) { u(s, n); if (n > a.size()) n = a.size(); for (size_t i = 0; i < n; i++) u(s, a[i]); }
inline S topology(const slsm::Mesh& m)
{
    S s;
    u(s, m.width); u(s, m.height); u(s, m.nNodes); u(s, m.nElements); u(s, m.nodes.size()); u(s, m.elements.size());
    for (const slsm::Node& n : m.nodes)
    {
        d(s, n.coord.x); d(s, n.coord.y); v(s, n.neighbours, n.neighbours.size()); v(s, n.elements, n.nElements); u(s, n.isDomain);
    }
    for (const slsm::Element& e : m.elements) { d(s, e.coord.x); d(s, e.coord.y); v(s, e.nodes, e.nodes.size()); }
    return s;
}
// flags set by band construction and masking
inline S flags(const slsm::Mesh& m)
{
    S s;
    for (const slsm::Node& n : m.nodes) { s += n.isActive ? 'A' : 'a'; s += n.isMasked ? 'M' : 'm'; s += n.isMine ? 'I' : 'i'; }
    return s;
}
// what discretisation leaves on the mesh
inline S lookup(const slsm::Mesh& m, bool area = true)
{
    S s;
    for (const slsm::Node& n : m.nodes) { raw(s, n.status); v(s, n.boundaryPoints, n.nBoundaryPoints); }
    for (const slsm::Element& e : m.elements) { raw(s, e.status); v(s, e.boundarySegments, e.nBoundarySegments); if (area) d(s, e.area); }
    return s;
}
inline S band(const slsm::LevelSet& l)
{
    S s; v(s, l.narrowBand, l.nNarrowBand); v(s, l.mines, l.nMines); return s;
}
inline S bandFields(const slsm::LevelSet& l, const std::vector<double>& f)
{
    S s; for (unsigned i = 0; i < l.nNarrowBand; i++) d(s, f[l.narrowBand[i]]); return s;
}
inline S point(const slsm::BoundaryPoint& p)
{
    S s;
    d(s, p.coord.x); d(s, p.coord.y); d(s, p.normal.x); d(s, p.normal.y); d(s, p.length); d(s, p.velocity);
    d(s, p.negativeLimit); d(s, p.positiveLimit); u(s, p.isDomain); u(s, p.isFixed);
    v(s, p.segments, p.nSegments); v(s, p.neighbours, p.nNeighbours); v(s, p.sensitivities);
    return s;
}
inline S boundary(const slsm::Boundary& b)
{
    S s;
    u(s, b.nPoints); u(s, b.nSegments); u(s, b.points.size()); u(s, b.segments.size()); d(s, b.length);
    for (const slsm::BoundaryPoint& p : b.points) s += point(p);
    for (const slsm::BoundarySegment& g : b.segments) { u(s, g.start); u(s, g.end); u(s, g.element); d(s, g.length); d(s, g.weight); }
    return s;
}
inline S all(const slsm::LevelSet& l, bool distance = true)
{
    S s = topology(l.mesh) + flags(l.mesh) + lookup(l.mesh) + band(l);
    if (distance) v(s, l.signedDistance);
    v(s, l.velocity); v(s, l.gradient); v(s, l.target);
    return s;
}
}
#endif
