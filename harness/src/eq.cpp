// Point-wise definitions of every equation.
#include "common.hpp"
#include "alsfvm/equation/equation_list.hpp"
namespace vh {
namespace {
template<class T> void append(std::vector<double>& v, const T& x) {
    for (size_t i = 0; i < x.size(); ++i) {
        v.push_back(x[i]);
    }
}
template<class Eq, int d, bool in> struct Dir {
    static void run(const Eq& eq, const typename Eq::ConservedVariables& u,
        std::map<std::string, std::vector<double>>& o) {
        auto s = std::to_string(d);
        typename Eq::ConservedVariables f;
        auto extra = eq.computeExtra(u);
        typename Eq::AllVariables all(u, extra);
        eq.template computePointFlux<d>(all, f);
        append(o["f" + s], f);
        o["ws" + s].push_back(eq.template computeWaveSpeed<d>(u, extra));
        append(o["ev" + s], eq.template computeEigenValues<d>(u));
        auto m = eq.template computeEigenVectorMatrix<d>(u);
        const int n = Eq::numberOfConservedVariables;
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < n; ++j) {
                o["R" + s].push_back(m(i, j));
            }
        }
    }
};
template<class Eq, int d> struct Dir<Eq, d, false> {
    static void run(const Eq&, const typename Eq::ConservedVariables&,
        std::map<std::string, std::vector<double>>&) {}
};
template<class Eq> struct Prim;
template<int n> struct Prim<equation::euler::Euler<n>> {
    typedef equation::euler::Euler<n> Eq;
    static typename Eq::PrimitiveVariables make(const double* p) {
        typename Eq::PrimitiveVariables r;
        r.rho = p[0];
        for (int i = 0; i < n; ++i) {
            r.u[i] = p[1 + i];
        }
        r.p = p[n + 1];
        return r;
    }
    static void put(std::vector<double>& v, const typename Eq::PrimitiveVariables& p) {
        v.push_back(p.rho);
        for (int i = 0; i < n; ++i) {
            v.push_back(p.u[i]);
        }
        v.push_back(p.p);
    }
    static const int dims = n;
};
template<class Eq> struct Prim {
    static typename Eq::PrimitiveVariables make(const double* p) {
        return typename Eq::PrimitiveVariables(p[0]);
    }
    static void put(std::vector<double>& v, const typename Eq::PrimitiveVariables& p) {
        v.push_back(p.u);
    }
    static const int dims = 3;
};
template<class Eq> struct Pot {
    static void put(std::vector<double>& v, const Eq& eq,
        const typename Eq::ConservedVariables& u) {
        append(v, eq.computeEntropyPotential(u));
    }
};
struct Visitor {
    const Req& q;
    Resp& r;
    template<class Info> void operator()(const Info&) const {
        typedef typename Info::EquationType Eq;
        if (Eq::getName() != q.s("eq")) {
            return;
        }
        Ctx c(q);
        Eq eq(static_cast<typename Eq::Parameters&>(c.params->getEquationParameters()));
        const int n = Eq::numberOfConservedVariables;
        std::map<std::string, std::vector<double>> o;
        const int dims = Prim<Eq>::dims;
        auto handle = [&](const typename Eq::ConservedVariables & u) {
            Dir<Eq, 0, true>::run(eq, u, o);
            Dir < Eq, 1, (dims > 1) >::run(eq, u, o);
            Dir < Eq, 2, (dims > 2) >::run(eq, u, o);
            append(o["v"], eq.computeEntropyVariables(u));
            Pot<Eq>::put(o["psi"], eq, u);
            o["obeys"].push_back(eq.obeysConstraints(u, eq.computeExtra(u)));
            Prim<Eq>::put(o["prim"], eq.computePrimitiveVariables(u));
        };
        if (q.arr.count("u")) {
            auto& a = q.a("u");
            for (size_t k = 0; k + n <= a.size(); k += n) {
                typename Eq::ConservedVariables u;
                for (int i = 0; i < n; ++i) {
                    u[i] = a[k + i];
                }
                handle(u);
            }
        }
        if (q.arr.count("p")) {
            auto& a = q.a("p");
            for (size_t k = 0; k + n <= a.size(); k += n) {
                auto p = Prim<Eq>::make(&a[k]);
                auto u = eq.computeConserved(p);
                append(o["cons"], u);
                handle(u);
            }
        }
        for (auto& p : o) {
            r.add(p.first, p.second);
        }
    }
};
Register r1("eq", [](const Req& q, Resp& r) {
    equation::for_each_equation(Visitor{q, r});
});
}
}
