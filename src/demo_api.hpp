// What the harness uses of one demonstration program.
#ifndef DEMO_API_HPP
#define DEMO_API_HPP
#include <bits/stdc++.h>
#include "mc.hpp"
#include "slsm_all.hpp"
#include "Optimise.h"
#include "slsm.h"
typedef std::vector<double> V;
typedef std::string S;
typedef slsm::BoundaryPoint BP;
namespace demos
{
struct Api
{
    S name, script;
    std::function<double(const slsm::Coord&, const slsm::LevelSet&)> sensitivity;
    std::function<double(const slsm::Mesh&, const V&)> mismatch;
    std::function<double(const std::vector<BP>&)> perimeter;
    std::function<double(const BP&)> pointLength;
    std::function<double(double)> weight;
    std::function<void(const std::vector<BP>&, double&, double&)> centre;
    std::function<double(double, double, double)> bias;
    std::function<bool(double, double, double, slsm::MersenneTwister&)> accepted;
    std::function<bool(std::vector<BP>*, double, double, double)> globals;    // points, upper, lower, reduce; false: not understood
    std::function<int(int, char**)> prog;
};
}
#endif
