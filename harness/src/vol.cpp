// Programs of container operations, one reply per instruction, and functionals.
#include "common.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsfvm/memory/Memory.hpp"
namespace vh {
namespace {
typedef std::shared_ptr<volume::Volume> VP;
struct Args {
    std::vector<std::string> w;
    size_t k{1};
    std::string s() {
        return w.at(k++);
    }
    long i() {
        return std::strtol(s().c_str(), nullptr, 10);
    }
    double d() {
        return std::strtod(s().c_str(), nullptr);
    }
};
std::vector<std::string> names(size_t n) {
    std::vector<std::string> r;
    for (size_t i = 0; i < n; ++i) {
        r.push_back("var" + std::to_string(i));
    }
    return r;
}
void volprog(const Req& q, Resp& r) {
    auto device = std::make_shared<DeviceConfiguration>("cpu");
    auto mf = std::make_shared<memory::MemoryFactory>(device);
    std::map<long, VP> v;
    std::vector<double> none;
    const std::vector<double>& data = q.arr.count("data") ? q.a("data") : none;
    size_t pos = 0;
    std::string status;
    std::vector<double> out, sizes;
    auto at = [&](long id) -> volume::Volume & {
        auto it = v.find(id);
        if (it == v.end()) {
            throw std::logic_error("harness: no volume " + std::to_string(id));
        }
        return *it->second;
    };
    auto take = [&](size_t n) {
        if (pos + n > data.size()) {
            throw std::logic_error("harness: not enough data");
        }
        std::vector<double> x(data.begin() + pos, data.begin() + pos + n);
        pos += n;
        return x;
    };
    for (auto& line : split(q.s("prog"), ';')) {
        Args a{split(line, ' ')};
        const std::string op = a.w[0];
        std::vector<double> o;
        char st = 'o';
        try {
            if (op == "new") {
                long id = a.i(), nv = a.i(), nx = a.i(), ny = a.i(), nz = a.i(), ng = a.i();
                v[id] = std::make_shared<volume::Volume>(names(nv), mf, nx, ny, nz, ng);
                setFull(*v[id], take(full(*v[id]).size()));
            } else if (op == "inst") {
                long id = a.i();
                VP n = at(a.i()).makeInstance();
                n->makeZero();
                v[id] = n;
            } else if (op == "instn") {
                long id = a.i();
                auto& src = at(a.i());
                long nx = a.i(), ny = a.i(), nz = a.i();
                VP n = src.makeInstance(nx, ny, nz);
                n->makeZero();
                v[id] = n;
            } else if (op == "view") {
                long id = a.i();
                auto& src = at(a.i());
                std::vector<size_t> comp;
                while (a.k < a.w.size()) {
                    comp.push_back(a.i());
                }
                v[id] = std::make_shared<volume::Volume>(src, comp, names(comp.size()));
            } else if (op == "cpu") {
                long id = a.i();
                v[id] = at(a.i()).getCopyOnCPU();
            } else if (op == "free") {
                v.erase(a.i());
            } else if (op == "set") {
                auto& x = at(a.i());
                setFull(x, take(full(x).size()));
            } else if (op == "vadd") {
                auto& x = at(a.i());
                auto& y = at(a.i());
                volume::Volume& res = (x += y);
                o.push_back(&res == &x);
            } else if (op == "vscale") {
                auto& x = at(a.i());
                volume::Volume& res = (x *= a.d());
                o.push_back(&res == &x);
            } else if (op == "vzero") {
                at(a.i()).makeZero();
            } else if (op == "copyto") {
                auto& x = at(a.i());
                x.copyTo(at(a.i()));
            } else if (op == "setvol") {
                auto& x = at(a.i());
                x.setVolume(at(a.i()));
            } else if (op == "lin") {
                auto& x = at(a.i());
                double c[5];
                volume::Volume* y[4];
                c[0] = a.d();
                for (int k = 0; k < 4; ++k) {
                    c[k + 1] = a.d();
                    y[k] = &at(a.i());
                }
                x.addLinearCombination(c[0], c[1], *y[0], c[2], *y[1], c[3], *y[2], c[4], *y[3]);
            } else if (op == "addpow" || op == "addpowf" || op == "subpow") {
                auto& x = at(a.i());
                auto& y = at(a.i());
                double p = a.d();
                if (op == "addpow") {
                    x.addPower(y, p);
                } else if (op == "subpow") {
                    x.subtractPower(y, p);
                } else {
                    x.addPower(y, p, a.d());
                }
            } else if (op == "madd" || op == "msub" || op == "mmul" || op == "mdiv" ||
                op == "mcopy" || op == "mpow" || op == "mpowf" || op == "mspow") {
                auto& x = at(a.i());
                auto mx = x.getScalarMemoryArea(size_t(a.i()));
                auto& y = at(a.i());
                auto my = y.getScalarMemoryArea(size_t(a.i()));
                if (op == "madd") {
                    *mx += *my;
                } else if (op == "msub") {
                    *mx -= *my;
                } else if (op == "mmul") {
                    *mx *= *my;
                } else if (op == "mdiv") {
                    *mx /= *my;
                } else if (op == "mcopy") {
                    mx->copyFrom(*my);
                } else if (op == "mpow") {
                    mx->addPower(*my, a.d());
                } else if (op == "mspow") {
                    mx->subtractPower(*my, a.d());
                } else {
                    double p = a.d(), f = a.d();
                    mx->addPower(*my, p, f);
                }
            } else if (op == "mlin") {
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                double c[5];
                const memory::Memory<real>* y[4];
                c[0] = a.d();
                for (int k = 0; k < 4; ++k) {
                    c[k + 1] = a.d();
                    auto& w = at(a.i());
                    y[k] = w.getScalarMemoryArea(size_t(a.i())).get();
                }
                m->addLinearCombination(c[0], c[1], *y[0], c[2], *y[1], c[3], *y[2], c[4], *y[3]);
            } else if (op == "sadd" || op == "ssub" || op == "smul" || op == "sdiv" || op == "szero") {
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                double s = op == "szero" ? 0 : a.d();
                if (op == "sadd") {
                    *m += s;
                } else if (op == "ssub") {
                    *m -= s;
                } else if (op == "smul") {
                    *m *= s;
                } else if (op == "sdiv") {
                    *m /= s;
                } else {
                    m->makeZero();
                }
            } else if (op == "minst") {
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                auto n = m->makeInstance();
                n->makeZero();
                *n += *m;
                o = {double(n->getSizeX()), double(n->getSizeY()), double(n->getSizeZ()),
                     double(n->getSize()), double(n->isOnHost())
                    };
                o.insert(o.end(), n->getPointer(), n->getPointer() + n->getSize());
            } else if (op == "put" || op == "get") {
                auto& x = at(a.i());
                auto m = x.getScalarMemoryArea("var" + a.s());
                long i = a.i(), j = a.i(), k = a.i();
                if (op == "put") {
                    m->getView().at(i, j, k) = a.d();
                } else {
                    const volume::Volume& cx = x;
                    o = {m->getView().at(i, j, k), m->getHostMemory()->getView().at(i, j, k),
                         double(m->getView().size()), double(m->getView().index(i, j, k)),
                         cx[m == x.getScalarMemoryArea("var0") ? "var0" : x.getName(
                                 x.getNumberOfVariables() - 1)].getView().at(i, j, k)
                        };
                }
            } else if (op == "cin") {
                auto& x = at(a.i());
                size_t var = a.i();
                o.assign(size_t(x.getNumberOfXCells() * x.getNumberOfYCells() *
                        x.getNumberOfZCells()), -3.5);
                x.copyInternalCells(var, o.data(), o.size());
            } else if (op == "cbox") { // any box of the memory
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                long b[6];
                for (auto& t : b) {
                    t = a.i();
                }
                o.assign(size_t((b[1] - b[0]) * (b[3] - b[2]) * (b[5] - b[4])), -3.5);
                m->copyInternalCells(b[0], b[1], b[2], b[3], b[4], b[5], o.data(), o.size());
            } else if (op == "tohost") {
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                o.assign(m->getSize() + 3, -3.5);
                m->copyToHost(o.data(), o.size());
            } else if (op == "fromhost") {
                auto m = at(a.i()).getScalarMemoryArea(size_t(a.i()));
                size_t n = a.i();
                auto x = take(n);
                m->copyFromHost(x.data(), n);
            } else if (op == "tv" || op == "tvd") {
                auto& x = at(a.i());
                const auto m = x.getScalarMemoryArea(size_t(a.i()));
                ivec3 s = x.getNumberOfGhostCells(), e = x.getSize() - x.getNumberOfGhostCells();
                if (op == "tv") {
                    o = {m->getTotalVariation(int(a.i()), s, e)};
                } else {
                    int dir = a.i();
                    o = {m->getTotalVariation(dir, int(a.i()), s, e)};
                }
            } else if (op == "info") {
                auto& x = at(a.i());
                for (auto n : {x.getNumberOfVariables(), x.getNumberOfXCells(),
                        x.getNumberOfYCells(), x.getNumberOfZCells(), x.getNumberOfXGhostCells(),
                        x.getNumberOfYGhostCells(), x.getNumberOfZGhostCells(),
                        x.getTotalNumberOfXCells(), x.getTotalNumberOfYCells(),
                        x.getTotalNumberOfZCells(), x.getDimensions()
                    }) {
                    o.push_back(double(n));
                }
                for (auto t : {x.getSize(), x.getInnerSize(), x.getNumberOfGhostCells(),
                        x.getTotalDimensions()
                    }) {
                    o.insert(o.end(), {double(t.x), double(t.y), double(t.z)});
                }
                for (size_t k = 0; k < x.getNumberOfVariables(); ++k) {
                    o.push_back(double(x.getIndexFromName(x.getName(k))));
                    o.push_back(x.hasVariable(x.getName(k)));
                    o.push_back(double(x.getScalarMemoryArea(k)->getSize()));
                }
                o.push_back(x.hasVariable("varx"));
            } else if (op == "index") {
                auto& x = at(a.i());
                o = {double(x.getIndexFromName(a.s()))};
            } else {
                throw std::logic_error("harness: unknown instruction " + op);
            }
        } catch (std::logic_error& e) {
            if (std::string(e.what()).compare(0, 8, "harness:") == 0) {
                throw;
            }
            st = 'r';
        } catch (std::exception& e) {
            if (std::string(e.what()).compare(0, 8, "harness:") == 0) {
                throw;
            }
            st = 'r';
        }
        status += st;
        sizes.push_back(double(o.size()));
        out.insert(out.end(), o.begin(), o.end());
        for (auto& x : v) { // everything after every instruction
            auto f = full(*x.second);
            sizes.push_back(double(f.size()));
            out.insert(out.end(), f.begin(), f.end());
        }
        sizes.push_back(-1);
    }
    r.set("status", status);
    r.add("sizes", sizes);
    r.add("out", out);
}
Register r1("volprog", volprog);

// One functional applied to a sequence of states with weights, accumulating.
void functionalOp(const Req& q, Resp& r) {
    Ctx c(q);
    functional::FunctionalFactory fac;
    boost::property_tree::ptree tree;
    for (auto& kv : q.kv) {
        if (kv.first.compare(0, 2, "p_") == 0) {
            tree.put(kv.first.substr(2), kv.second);
        }
    }
    functional::Functional::Parameters pars(tree);
    auto f = fac.makeFunctional("cpu", q.s("name"), pars);
    auto in = c.volumes->createConservedVolume(c.nx, c.ny, c.nz, q.i("ng", 0));
    auto size = f->getFunctionalSize(*c.grid);
    auto gc = f->getGhostCellSizes(*c.grid, *in);
    auto out = c.volumes->createConservedVolume(size.x, size.y, size.z, gc.x);
    out->makeZero();
    const size_t n = in->getNumberOfVariables() * c.nx * c.ny * c.nz;
    auto& u = q.a("u");
    auto& w = q.a("w");
    if (q.has("start")) {
        fillAll(*out, q.d("start"));
    }
    for (size_t k = 0; k < w.size(); ++k) {
        if (q.i("fillghost", 0)) {
            setInterior(*in, std::vector<double>(u.begin() + k * n, u.begin() + (k + 1)*n));
            boundary::BoundaryFactory bf(c.bc == "neumann" ? "neumann" : "periodic", c.device);
            bf.createBoundary(q.i("ng", 0))->applyBoundaryConditions(*in, *c.grid);
        } else {
            fillAll(*in, q.d("ghost", 1));
            setInterior(*in, std::vector<double>(u.begin() + k * n, u.begin() + (k + 1)*n));
        }
        auto before = full(*in);
        (*f)(*out, *in, w[k], *c.grid);
        if (full(*in) != before) {
            r.seti("changed", 1);
        }
    }
    r.add("size", {double(size.x), double(size.y), double(size.z)});
    r.add("out", interior(*out));
    r.set("alloc", f->getPlatformToAllocateOn("cpu"));
}
Register r2("functional", functionalOp);
}
}
