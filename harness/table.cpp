// Tables of constituents: C04, C05, C08, C16, C17.
#include <atomic>
#include <functional>
#include <map>
#include <thread>

#include "fes/constituent.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"
#include "trace.hpp"

using trace::Cmd;
using trace::Ev;
using fes::Constituent;
using fes::wave::Table;

namespace {

std::map<int, Table> tables;
std::unique_ptr<fes::wave::LongPeriodEquilibrium> lpe;

fes::angle::Formulae formulae(const std::string& s) {
  if (s == "schureman1") return fes::angle::Formulae::kSchuremanOrder1;
  if (s == "schureman3") return fes::angle::Formulae::kSchuremanOrder3;
  return fes::angle::Formulae::kMeeus;
}

Eigen::VectorXd vec(const std::vector<double>& x) {
  return Eigen::Map<const Eigen::VectorXd>(x.data(), x.size());
}

template <typename V>
std::vector<double> list(const V& x) {
  return std::vector<double>(x.data(), x.data() + x.size());
}

template <typename F>
std::string guarded(F f) {
  try {
    f();
    return "";
  } catch (...) {
    return trace::kind();
  }
}

int id_of(const std::shared_ptr<fes::Wave>& w) {
  return w ? int(w->ident()) : -1;
}

// Every view of a table.
Ev views(const char* op, int slot, const Table& t) {
  Ev e(op);
  std::vector<int> index, iter, byid;
  std::vector<std::string> iternames;
  for (size_t i = 0; i < t.size(); ++i) index.push_back(id_of(t[i]));
  for (auto it = t.begin(); it != t.end(); ++it) {
    iter.push_back(id_of(*it));
    iternames.push_back((*it)->name());
  }
  std::vector<int> mutable_iter;
  Table& mt = const_cast<Table&>(t);
  for (auto&& w : mt) mutable_iter.push_back(id_of(w));
  for (int i = 0; i < 75; ++i) {
    int x = -2;
    auto k = guarded([&] { x = id_of(t[static_cast<Constituent>(i)]); });
    int y = -2;
    guarded([&] { y = id_of(mt[static_cast<Constituent>(i)]); });
    byid.push_back(x != y ? -3 : k.empty() ? x : k == "out_of_range" ? -1 : -4);
  }
  std::vector<int> found;
  for (int i = 0; i < 75; ++i) {
    int x = -2;
    guarded([&] {
      x = id_of(
          t.find(fes::constituents::name(static_cast<Constituent>(i))));
    });
    found.push_back(x);
  }
  e.i("slot", slot).i("size", t.size()).v("names", t.constituents());
  e.v("index", index).v("iter", iter).v("miter", mutable_iter);
  e.v("iternames", iternames).v("byid", byid).v("found", found);
  e.s("beyond", guarded([&] { t[t.size()]; }));
  return e;
}

// What the waves of a table hold.
void dump(int slot) {
  const auto& t = tables.at(slot);
  std::vector<int> ids, adm, dyn;
  std::vector<std::complex<double>> tide;
  std::vector<double> f, v, u;
  for (auto&& w : t) {
    ids.push_back(w->ident());
    adm.push_back(w->admittance());
    dyn.push_back(w->dynamic());
    tide.push_back(w->tide());
    f.push_back(w->f());
    v.push_back(w->v());
    u.push_back(w->u());
  }
  trace::emit(Ev("dump")
                  .i("slot", slot)
                  .v("ids", ids)
                  .v("adm", adm)
                  .v("dyn", dyn)
                  .v("tide", tide)
                  .v("f", f)
                  .v("v", v)
                  .v("u", u));
}

std::vector<std::complex<double>> complexes(Cmd& c, size_t n) {
  std::vector<std::complex<double>> v(n);
  for (auto& x : v) {
    double re = c.d();
    x = {re, c.d()};
  }
  return v;
}

struct Dates {
  Eigen::VectorXd e;
  fes::Vector<uint16_t> l;
  static Dates read(Cmd& c) {
    auto n = c.i();
    Dates d{Eigen::VectorXd(n), fes::Vector<uint16_t>(n)};
    for (Eigen::Index i = 0; i < n; ++i) {
      d.e(i) = c.d();
      d.l(i) = uint16_t(c.i());
    }
    return d;
  }
  std::string json() const {
    std::string r = "[";
    for (Eigen::Index i = 0; i < e.size(); ++i)
      r += (i ? ",{\"e\":" : "{\"e\":") + Ev::num(e(i)) +
           ",\"l\":" + std::to_string(l(i)) + "}";
    return r + "]";
  }
};

using RowMajor =
    Eigen::Matrix<std::complex<double>, -1, -1, Eigen::RowMajor>;

std::string rows(const Eigen::MatrixXd& m) {
  std::vector<std::vector<double>> r(m.rows());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) r[i].push_back(m(i, j));
  return Ev::list(r.begin(), r.end());
}

// A computation from a table; parsed first, executed by f(), told by told.
struct Job {
  Ev ev{""};
  std::function<std::string()> f;
};

Job job(Cmd& c) {
  auto what = c.str();
  auto slot = int(c.i());
  auto fm = c.str();
  const Table& t = tables.at(slot);
  Job j;
  j.ev = Ev(what);
  j.ev.i("slot", slot).s("f", fm);
  if (what == "series") {
    auto d = Dates::read(c);
    auto w = complexes(c, size_t(c.i()));
    j.ev.raw("dates", d.json()).v("wave", w);
    j.f = [=, &t] {
      Eigen::VectorXcd x =
          Eigen::Map<const Eigen::VectorXcd>(w.data(), w.size());
      auto h = t.tide_from_tide_series(d.e, d.l, x, formulae(fm));
      return ",\"h\":" + Ev::item(list(h));
    };
  } else if (what == "map") {
    auto e = c.d();
    auto l = uint16_t(c.i());
    auto threads = size_t(c.i());
    auto layout = c.i();
    auto nrow = c.i(), ncol = c.i();
    auto w = complexes(c, size_t(nrow * ncol));  // column after column
    j.ev.d("e", e).i("l", l).i("threads", threads).i("cols", ncol).v("wave", w);
    j.f = [=, &t] {
      Eigen::MatrixXcd x =
          Eigen::Map<const Eigen::MatrixXcd>(w.data(), nrow, ncol);
      Eigen::MatrixXd r;
      if (layout == 0) {
        r = t.tide_from_mapping(e, l, x, formulae(fm), threads);
      } else if (layout == 1) {
        RowMajor y = x;
        r = t.tide_from_mapping(
            e, l,
            Eigen::Map<const Eigen::MatrixXcd, 0, fes::DynamicStride>(
                y.data(), nrow, ncol, fes::DynamicStride(1, ncol)),
            formulae(fm), threads);
      } else {
        Eigen::MatrixXcd y = Eigen::MatrixXcd::Constant(2 * nrow + 1,
                                                        ncol + 2, {7e7, -7e7});
        for (Eigen::Index a = 0; a < nrow; ++a)
          for (Eigen::Index b = 0; b < ncol; ++b) y(2 * a, b + 1) = x(a, b);
        r = t.tide_from_mapping(
            e, l,
            Eigen::Map<const Eigen::MatrixXcd, 0, fes::DynamicStride>(
                y.data() + (2 * nrow + 1), nrow, ncol,
                fes::DynamicStride(2 * nrow + 1, 2)),
            formulae(fm), threads);
      }
      return ",\"m\":" + rows(r) + ",\"nr\":" + std::to_string(r.rows()) +
             ",\"nc\":" + std::to_string(r.cols());
    };
  } else {
    auto d = Dates::read(c);
    j.ev.raw("dates", d.json());
    j.f = [=, &t] {
      auto r = t.compute_nodal_modulations(d.e, d.l, formulae(fm));
      return ",\"nf\":" + rows(std::get<0>(r)) +
             ",\"nvu\":" + rows(std::get<1>(r));
    };
  }
  return j;
}

void emit(const Job& j, const std::string& result) {
  auto s = j.ev.str();
  s.pop_back();
  s = "E " + s + result + "}\n";
  std::fwrite(s.data(), 1, s.size(), stdout);
}

// analyse <slot> <formulae> <n (e l)> <n rows used: indices in the table>
//  then the constants used to synthesise, and the deviations added to h
void analyse(Cmd& c) {
  auto slot = int(c.i());
  auto fm = c.str();
  auto d = Dates::read(c);
  auto order = c.is();
  auto layout = c.i();
  const Table& t = tables.at(slot);
  auto r = t.compute_nodal_modulations(d.e, d.l, formulae(fm));
  Eigen::MatrixXd f(order.size(), d.e.size()), vu(order.size(), d.e.size());
  std::vector<int> ids;
  for (size_t i = 0; i < order.size(); ++i) {
    f.row(i) = std::get<0>(r).row(order[i]);
    vu.row(i) = std::get<1>(r).row(order[i]);
    ids.push_back(t[size_t(order[i])]->ident());
  }
  auto truth = complexes(c, order.size());
  auto noise = c.ds();
  Eigen::VectorXd h = Eigen::VectorXd::Zero(d.e.size());
  for (Eigen::Index k = 0; k < h.size(); ++k) {
    for (size_t i = 0; i < order.size(); ++i)
      h(k) += f(i, k) * (truth[i].real() * std::cos(vu(i, k)) +
                         truth[i].imag() * std::sin(vu(i, k)));
    if (!noise.empty()) h(k) += noise[k % noise.size()];
  }
  Eigen::VectorXcd w;
  if (layout == 0) {
    w = Table::harmonic_analysis(h, f, vu);
  } else {
    Eigen::Matrix<double, -1, -1, Eigen::RowMajor> ff = f, vv = vu;
    fes::DynamicStride st(1, f.cols());
    w = Table::harmonic_analysis(
        h,
        Eigen::Map<const Eigen::MatrixXd, 0, fes::DynamicStride>(
            ff.data(), f.rows(), f.cols(), st),
        Eigen::Map<const Eigen::MatrixXd, 0, fes::DynamicStride>(
            vv.data(), f.rows(), f.cols(), st));
  }
  std::vector<std::complex<double>> wv(w.data(), w.data() + w.size());
  trace::emit(Ev("analyse")
                  .v("ids", ids)
                  .v("truth", truth)
                  .b("exact", noise.empty())
                  .v("h", list(h))
                  .raw("f", rows(f))
                  .raw("vu", rows(vu))
                  .v("w", wv));
}

void run(Cmd& c) {
  const auto& op = c.op();
  if (op == "known") {
    auto k = fes::constituents::known();
    std::vector<int> ids;
    std::vector<std::string> back;
    for (auto& n : k) {
      ids.push_back(fes::constituents::parse(n));
      back.push_back(
          fes::constituents::name(static_cast<Constituent>(ids.back())));
    }
    trace::emit(Ev("known").v("names", k).v("ids", ids).v("back", back));
  } else if (op == "parse") {
    // parse <hex bytes>|-
    auto h = c.str();
    std::string s;
    if (h != "-")
      for (size_t i = 0; i + 1 < h.size(); i += 2)
        s += char(std::strtol(h.substr(i, 2).c_str(), nullptr, 16));
    int id = -1;
    auto k = guarded([&] { id = fes::constituents::parse(s); });
    trace::emit(Ev("parse").s("text", s).i("id", id).s("raised", k));
  } else if (op == "make") {
    auto id = int(c.i());
    int got = -1;
    std::string name;
    auto k = guarded([&] {
      auto w = Table::wave_factory(static_cast<Constituent>(id));
      got = id_of(w);
      name = w->name();
    });
    trace::emit(
        Ev("make").i("id", id).i("got", got).s("name", name).s("raised", k));
  } else if (op == "names" || op == "ids" || op == "all") {
    auto slot = int(c.i());
    if (op == "names") {
      auto n = c.ss();
      std::string k = guarded([&] {
        Table t(n);
        tables.erase(slot);
        tables.emplace(slot, std::move(t));
      });
      if (k.empty())
        trace::emit(views("table", slot, tables.at(slot)).v("asked", n));
      else
        trace::emit(Ev("refused").v("asked", n).s("raised", k));
    } else {
      std::vector<int> asked;
      std::vector<Constituent> ids;
      if (op == "ids")
        for (auto i : c.is()) {
          asked.push_back(int(i));
          ids.push_back(static_cast<Constituent>(i));
        }
      tables.erase(slot);
      if (op == "ids")
        tables.emplace(slot, Table(ids));
      else
        tables.emplace(slot, Table());
      trace::emit(
          views("table", slot, tables.at(slot)).v("askedids", asked));
    }
  } else if (op == "views") {
    auto slot = int(c.i());
    trace::emit(views("views", slot, tables.at(slot)));
  } else if (op == "find") {
    auto slot = int(c.i());
    auto n = c.str();
    int id = -2;
    auto k = guarded([&] { id = id_of(tables.at(slot).find(n)); });
    trace::emit(
        Ev("find").i("slot", slot).s("text", n).i("id", id).s("raised", k));
  } else if (op == "copy" || op == "assign" || op == "move") {
    auto from = int(c.i()), to = int(c.i());
    if (op == "copy") {
      Table t(tables.at(from));
      tables.erase(to);
      tables.emplace(to, std::move(t));
    } else if (op == "assign") {
      if (!tables.count(to)) tables.emplace(to, Table());
      tables.at(to) = tables.at(from);
    } else {
      Table t(std::move(tables.at(from)));
      tables.erase(from);
      if (!tables.count(to)) tables.emplace(to, Table());
      tables.at(to) = std::move(t);
    }
    trace::emit(Ev(op).i("from", from).i("to", to));
  } else if (op == "set") {
    // set <slot> <id> <re> <im> <admittance> <dynamic>, - to leave
    auto slot = int(c.i());
    auto id = int(c.i());
    auto& t = tables.at(slot);
    auto w = t[static_cast<Constituent>(id)];
    auto v = complexes(c, 1)[0];
    bool adm = c.i() != 0, dyn = c.i() != 0;
    w->tide(v);
    w->admittance(adm);
    w->dynamic(dyn);
    trace::emit(Ev("set")
                    .i("slot", slot)
                    .i("id", id)
                    .c("v", v)
                    .b("adm", adm)
                    .b("dyn", dyn));
  } else if (op == "admit") {
    auto slot = int(c.i());
    tables.at(slot).admittance();
    trace::emit(Ev("admit").i("slot", slot));
    dump(slot);
  } else if (op == "nodal") {
    auto slot = int(c.i());
    auto fm = c.str();
    auto e = c.d();
    auto l = uint16_t(c.i());
    tables.at(slot).compute_nodal_corrections(
        fes::angle::Astronomic(formulae(fm), e, l));
    trace::emit(Ev("nodal").i("slot", slot).s("f", fm).d("e", e).i("l", l));
    dump(slot);
  } else if (op == "dump") {
    dump(int(c.i()));
  } else if (op == "job") {
    auto j = job(c);
    auto r = j.f();
    emit(j, r);
  } else if (op == "together") {
    // together <n>: the n next "job" commands at the same time
    auto n = c.i();
    std::vector<Job> jobs;
    for (long long i = 0; i < n; ++i) {
      std::string line;
      std::getline(std::cin, line);
      Cmd k(line);
      jobs.push_back(job(k));
    }
    std::vector<std::string> res(jobs.size());
    std::vector<std::thread> th;
    std::atomic<size_t> ready{0};
    for (size_t i = 0; i < jobs.size(); ++i)
      th.emplace_back([&, i] {
        ++ready;
        while (ready < jobs.size()) std::this_thread::yield();
        res[i] = jobs[i].f();
      });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < jobs.size(); ++i) emit(jobs[i], res[i]);
  } else if (op == "analyse") {
    analyse(c);
  } else if (op == "select") {
    auto d = c.d(), f = c.d();
    bool given = c.i() != 0;
    trace::emit(Ev("select").d("d", d).d("f", given ? f : 2.0).v(
        "names", given ? Table::select_waves_for_analysis(d, f)
                       : Table::select_waves_for_analysis(d)));
  } else if (op == "lpnew") {
    // lpnew [slot]
    std::vector<int> dyn;
    if (c.more()) {
      auto slot = int(c.i());
      lpe.reset(new fes::wave::LongPeriodEquilibrium(tables.at(slot)));
      trace::emit(Ev("lpnew").i("slot", slot));
    } else {
      lpe.reset(new fes::wave::LongPeriodEquilibrium());
      trace::emit(Ev("lpnew").i("slot", -1));
    }
  } else if (op == "lpdis") {
    auto slot = int(c.i());
    lpe->disable_dynamic_wave(tables.at(slot));
    trace::emit(Ev("lpdis").i("slot", slot));
  } else if (op == "lp") {
    auto fm = c.str();
    auto e = c.d();
    auto l = uint16_t(c.i());
    auto lats = c.ds();
    fes::angle::Astronomic a(formulae(fm), e, l);
    std::vector<double> r;
    for (auto x : lats) r.push_back(lpe->lpe_minus_n_waves(a, x));
    trace::emit(
        Ev("lp").s("f", fm).d("e", e).i("l", l).v("lat", lats).v("r", r));
  } else {
    trace::emit(Ev("bad-command"));
  }
}

}  // namespace

int main() {
  return trace::loop(
      [] {
        tables.clear();
        lpe.reset();
      },
      [](Cmd& c) {
        try {
          run(c);
        } catch (const std::exception& e) {
          trace::emit(Ev("raised").s("kind", trace::kind()).s("what", e.what()));
        }
      });
}
