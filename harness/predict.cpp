// Predictions: C01, C02, C03, C19.
#include <atomic>

#include "models.hpp"

using namespace models;

namespace {

Spec spec;
std::unique_ptr<Model> m;
Cfg cfg;
Batch reqs;

std::string elements(const fes::angle::Astronomic& a) {
  std::vector<double> v{a.t(), a.n(),  a.h(),    a.s(), a.p1(),    a.p(), a.i(),
                        a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  return Ev::list(v.begin(), v.end());
}

std::string results(const Evaluated& r) {
  return "{\"h\":" + Ev::list(r.h.begin(), r.h.end()) +
         ",\"lp\":" + Ev::list(r.lp.begin(), r.lp.end()) +
         ",\"q\":" + Ev::list(r.q.begin(), r.q.end()) + "}";
}

void run(Cmd& c) {
  const auto& op = c.op();
  if (op == "cart" || op == "lgp") {
    spec = Spec::read(c);
    m = spec.build();
    trace::emit(Ev("new").s("kind", op).s("type", m->type()));
  } else if (op == "add") {
    auto id = int(c.i());
    auto v = complexes(c);
    m->add(id, v);
    bool same = true;
    for (auto& x : v) same = same && x == v[0];
    trace::emit(Ev("add").i("id", id).b("const", same).c("v0", v[0]));
  } else if (op == "dyn") {
    auto ids = c.is();
    m->dynamic(std::vector<int>(ids.begin(), ids.end()));
    trace::emit(Ev("dyn").v("ids", ids));
  } else if (op == "clear") {
    m->clear();
    trace::emit(Ev("clear"));
  } else if (op == "cfg") {
    cfg = Cfg::read(c);
    trace::emit(
        Ev("cfg").s("f", cfg.f).d("tol", cfg.tol).v("excluded", cfg.excluded));
  } else if (op == "eval") {
    // eval <threads> <batch>: one prediction per request
    auto threads = size_t(c.i());
    auto b = Batch::read(c);
    auto r = m->eval(b.e, b.l, b.x, b.y, cfg.settings(), threads);
    std::vector<std::pair<double, double>> pts;
    for (Eigen::Index i = 0; i < b.e.size(); ++i)
      pts.emplace_back(b.x(i), b.y(i));
    std::string seen = "[";
    for (auto& s : m->look(pts, false))
      seen += (seen.size() > 1 ? "," : "") + s.json();
    trace::emit(Ev("eval")
                    .raw("reqs", b.json())
                    .raw("seen", seen + "]")
                    .raw("r", results(r)));
  } else if (op == "reqs") {
    // the requests the next batches refer to, each one evaluated alone by a
    // model built for it
    reqs = Batch::read(c);
    auto data = std::map<int, std::vector<std::complex<double>>>{};
    for (int id : m->identifiers()) data[id] = m->stored(id);
    Evaluated all;
    for (Eigen::Index i = 0; i < reqs.e.size(); ++i) {
      auto fresh = spec.build();
      for (auto& d : data) fresh->add(d.first, d.second);
      fresh->dynamic(m->dynamic());
      auto b = reqs.pick({i});
      auto r = fresh->eval(b.e, b.l, b.x, b.y, cfg.settings(), 1);
      all.h.push_back(r.h.at(0));
      all.lp.push_back(r.lp.at(0));
      all.q.push_back(r.q.at(0));
    }
    trace::emit(
        Ev("reqs").raw("reqs", reqs.json()).raw("r", results(all)));
  } else if (op == "batch") {
    // batch <threads> <n idx>: a batch made of the requests
    auto threads = size_t(c.i());
    auto idx = c.is();
    auto b = reqs.pick(idx);
    auto r = m->eval(b.e, b.l, b.x, b.y, cfg.settings(), threads);
    trace::emit(Ev("batch").i("threads", threads).v("idx", idx).raw(
        "r", results(r)));
  } else if (op == "cross") {
    // cross <n idx>: request idx[k] evaluated alone with the date of request
    // idx[j], for all j and k
    auto idx = c.is();
    std::string hs = "[", ls = "[";
    auto s = fes::Settings(formulae(cfg.f), 0, cfg.settings().excluded());
    for (auto k : idx) {
      std::vector<double> h, lp;
      for (auto j : idx) {
        auto b = reqs.pick({k});
        b.e(0) = reqs.e(j);
        b.l(0) = reqs.l(j);
        auto r = m->eval(b.e, b.l, b.x, b.y, s, 1);
        h.push_back(r.h.at(0));
        lp.push_back(r.lp.at(0));
      }
      hs += (hs.size() > 1 ? "," : "") + Ev::list(h.begin(), h.end());
      ls += (ls.size() > 1 ? "," : "") + Ev::list(lp.begin(), lp.end());
    }
    trace::emit(Ev("cross")
                    .v("idx", idx)
                    .raw("h", hs + "]")
                    .raw("lp", ls + "]"));
  } else if (op == "together") {
    // together <k> then k times <threads> <n idx>: batches at the same time
    auto k = size_t(c.i());
    std::vector<size_t> threads(k);
    std::vector<std::vector<long long>> idx(k);
    std::vector<Evaluated> r(k);
    for (size_t i = 0; i < k; ++i) {
      threads[i] = size_t(c.i());
      idx[i] = c.is();
    }
    std::vector<std::thread> th;
    std::atomic<size_t> ready{0};
    for (size_t i = 0; i < k; ++i)
      th.emplace_back([&, i] {
        auto b = reqs.pick(idx[i]);
        auto s = cfg.settings();
        ++ready;
        while (ready < k) std::this_thread::yield();
        r[i] = m->eval(b.e, b.l, b.x, b.y, s, threads[i]);
      });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < k; ++i)
      trace::emit(Ev("batch")
                      .i("threads", threads[i])
                      .v("idx", idx[i])
                      .raw("r", results(r[i])));
  } else if (op == "angles") {
    // angles <formulae> <tol> <n> <epoch leap>*: one accelerator
    auto f = c.str();
    auto tol = c.d();
    auto n = c.i();
    auto acc = m->accelerator(f, tol);
    trace::emit(Ev("acc").s("f", f).d("tol", tol));
    for (long long i = 0; i < n; ++i) {
      auto e = c.d();
      auto l = uint16_t(c.i());
      const auto& a = acc->calculate_angle(e, l);
      trace::emit(
          Ev("angle").d("e", e).i("l", l).raw("a", elements(a)).raw(
              "fresh", elements(fes::angle::Astronomic(formulae(f), e, l))));
    }
  } else {
    trace::emit(Ev("bad-command"));
  }
}

}  // namespace

int main() {
  return trace::loop(
      [] {
        m.reset();
        cfg = Cfg();
        reqs = Batch();
      },
      [](Cmd& c) {
        try {
          run(c);
        } catch (const std::exception& e) {
          trace::emit(Ev("raised").s("kind", trace::kind()).s("what", e.what()));
        }
      });
}
