// Reads expression programs (one per line, integers) for the run-time replays of the builder and of
// the symbolic multivector algebra.
#pragma once
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vh
{
struct ins { std::string op; int a, b, n, d, e; };
struct monomial { int num, den; std::vector<std::pair<int, int>> inds; };
// first indeterminate, elements; rich: the monomials of each element (none: one indeterminate each)
struct input { int id; std::vector<int> es; std::vector<std::vector<monomial>> rich; };
struct program { int key; std::string alg; std::vector<input> args; std::vector<ins> code; std::vector<int> outs; };

inline bool read(std::istream& in, program& p)
{
    std::string line;
    if (!std::getline(in, line)) { return false; }
    std::istringstream s{line};
    size_t n = 0, m = 0;
    p = program{};
    s >> p.key >> p.alg >> n;
    for (size_t i = 0; i != n; ++i)
    {
        input x;
        s >> x.id >> m;
        x.es.resize(m);
        for (auto& e : x.es) { s >> e; }
        s >> m;
        x.rich.resize(m);
        for (auto& ms : x.rich)
        {
            s >> m;
            ms.resize(m);
            for (auto& q : ms)
            {
                s >> q.num >> q.den >> m;
                q.inds.resize(m);
                for (auto& i : q.inds) { s >> i.first >> i.second; }
            }
        }
        p.args.push_back(x);
    }
    s >> n;
    for (size_t i = 0; i != n; ++i)
    {
        ins x;
        s >> x.op >> x.a >> x.b >> x.n >> x.d >> x.e;
        p.code.push_back(x);
    }
    s >> n;
    p.outs.resize(n);
    for (auto& o : p.outs) { s >> o; }
    return true;
}
} // namespace vh
