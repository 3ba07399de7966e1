// Requests whose parts agree or not, at every entry point: C18.
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave/table.hpp"
#include "models.hpp"

using models::formulae;
using trace::Cmd;
using trace::Ev;
using fes::Constituent;
using fes::wave::Table;

namespace {

// Models that tell how many positions they were asked for.
template <typename M>
struct Counted : M {
  using M::M;
  using M::interpolate;
  mutable std::atomic<long long> asked{0};
  auto interpolate(const fes::geometry::Point& p, fes::Quality& q,
                   fes::Accelerator* a) const
      -> const fes::ConstituentValues& override {
    ++asked;
    return M::interpolate(p, q, a);
  }
};

struct Object {
  virtual ~Object() = default;
  virtual std::string state() const = 0;
  virtual long long size() const = 0;
  virtual long long asked() const { return 0; }
  virtual void add(const std::string&, size_t) {}
  virtual bool has(const std::string&) const { return false; }
  virtual std::vector<long long> evaluate(const std::vector<long long>&,
                                          size_t) {
    return {};
  }
};

Eigen::VectorXd line(long long n, double a, double b) {
  Eigen::VectorXd r(n);
  for (long long i = 0; i < n; ++i) r(i) = a + b * double(i);
  return r;
}
fes::Vector<uint16_t> leaps(long long n) {
  fes::Vector<uint16_t> r(n);
  r.fill(20);
  return r;
}

template <typename T, typename M>
struct ModelObject : Object {
  std::shared_ptr<Counted<M>> m;
  std::string state() const override {
    auto s = m->getstate();
    // what it answers
    auto r = fes::evaluate_tide<T>(m.get(), line(3, 1e8, 1e5), leaps(3),
                                   line(3, .2, .3), line(3, .1, .2),
                                   fes::Settings(), 1);
    s.append(reinterpret_cast<const char*>(std::get<0>(r).data()), 24);
    s.append(reinterpret_cast<const char*>(std::get<1>(r).data()), 24);
    s.append(reinterpret_cast<const char*>(std::get<2>(r).data()), 3);
    return s;
  }
  long long size() const override { return (long long)m->size(); }
  long long asked() const override { return m->asked; }
  void add(const std::string& who, size_t n) override {
    fes::Vector<std::complex<T>> v(n);
    for (size_t i = 0; i < n; ++i) v(i) = {T(i), T(1)};
    auto& b = static_cast<fes::AbstractTidalModel<T>&>(*m);
    if (who[0] == '#')  // an identifier
      b.add_constituent(static_cast<Constituent>(std::atoi(who.c_str() + 1)),
                        v);
    else
      b.add_constituent(who, v);
  }
  std::vector<long long> evaluate(const std::vector<long long>& n,
                                  size_t threads) override {
    auto r = fes::evaluate_tide<T>(m.get(), line(n[0], 1e8, 1e5), leaps(n[1]),
                                   line(n[2], .2, .1), line(n[3], .1, .1),
                                   fes::Settings(), threads);
    return {std::get<0>(r).size(), std::get<1>(r).size(),
            std::get<2>(r).size()};
  }
};

template <typename T>
std::shared_ptr<Object> cart(long long nx, long long ny) {
  using M = fes::tidal_model::Cartesian<T>;
  auto o = std::make_shared<ModelObject<T, M>>();
  o->m = std::make_shared<Counted<M>>(fes::Axis(line(nx, 0, 1)),
                                      fes::Axis(line(ny, 0, 1)), fes::kTide);
  o->add("#30", size_t(nx * ny));
  return o;
}
std::shared_ptr<fes::mesh::Index> mesh(long long n) {
  // n triangles in a row
  Eigen::VectorXd x(n + 2), y(n + 2);
  Eigen::Matrix<int32_t, -1, 3> t(n, 3);
  for (long long i = 0; i < n + 2; ++i) {
    x(i) = double(i / 2);
    y(i) = double(i % 2);
  }
  for (int i = 0; i < n; ++i) t.row(i) << i, i + 1, i + 2;
  return std::make_shared<fes::mesh::Index>(x, y, t);
}
template <typename T>
std::shared_ptr<Object> lgp(long long dofs) {
  using M = fes::tidal_model::LGP1<T>;
  auto o = std::make_shared<ModelObject<T, M>>();
  Eigen::Matrix<int, -1, 3> codes(1, 3);
  codes << 0, int((dofs - 1) / 2), int(dofs - 1);
  o->m = std::make_shared<Counted<M>>(mesh(1), codes, fes::kTide, 0.0);
  o->add("#30", size_t(dofs));
  return o;
}

struct TableObject : Object {
  Table t;
  explicit TableObject(const std::vector<Constituent>& ids) : t(ids) {
    for (auto&& w : t) w->tide({double(int(w->ident())), 1});
    t.compute_nodal_corrections(fes::angle::Astronomic(
        fes::angle::Formulae::kSchuremanOrder1, 1e8, 20));
  }
  std::string state() const override {
    std::string s;
    for (auto&& w : t) {
      double x[] = {w->f(), w->u(), w->v(), w->tide().real(), w->tide().imag(),
                    double(w->admittance()), double(w->dynamic()),
                    double(int(w->ident()))};
      s.append(reinterpret_cast<const char*>(x), sizeof x);
    }
    return s;
  }
  long long size() const override { return (long long)t.size(); }
};

std::map<std::string, std::shared_ptr<Object>> objects;

template <typename F>
std::shared_ptr<Object> object(const std::string& key, F make) {
  auto& o = objects[key];
  if (!o) o = make();
  return o;
}

std::string text(const std::string& hex) {
  std::string s;
  if (hex != "-")
    for (size_t i = 0; i + 1 < hex.size(); i += 2)
      s += char(std::strtol(hex.substr(i, 2).c_str(), nullptr, 16));
  return s;
}

Eigen::MatrixXcd constants(long long r, long long c) {
  Eigen::MatrixXcd m(r, c);
  for (long long i = 0; i < r; ++i)
    for (long long j = 0; j < c; ++j) m(i, j) = {double(i), double(j)};
  return m;
}

std::vector<Constituent> some(long long n) {
  const std::vector<Constituent> all{fes::kM2, fes::kS2, fes::kK1, fes::kO1,
                                     fes::kN2, fes::kMf, fes::kSa, fes::kM4};
  return {all.begin(), all.begin() + n};
}

template <int N>
void lgp_of(long long triangles, long long rows,
            const std::vector<long long>& code) {
  Eigen::Matrix<int, Eigen::Dynamic, N * 3> k(rows, 3 * N);
  for (long long i = 0; i < rows; ++i)
    for (int j = 0; j < 3 * N; ++j) k(i, j) = int(i * 3 * N + j);
  if (code.size() == 2 && k.size())
    k((code[0] / (3 * N)) % rows, code[0] % (3 * N)) = int(code[1]);
  using M = std::conditional_t<N == 1, fes::tidal_model::LGP1<double>,
                               fes::tidal_model::LGP2<double>>;
  M m(mesh(triangles), k, fes::kRadial, 0.0);
  (void)m;
}

void run(Cmd& c) {
  const auto k = c.op();
  Ev e("request");
  e.s("k", k);
  std::shared_ptr<Object> o;
  std::function<std::vector<long long>()> f;
  if (k == "evaluate") {
    // evaluate <cart|lgp> <d|f> <threads> <sizes>
    auto kind = c.str(), p = c.str();
    auto threads = size_t(c.i());
    auto n = c.is();
    e.v("n", n).s("on", kind);
    o = object(kind + p, [&] {
      return kind == "cart" ? (p == "d" ? cart<double>(3, 3) : cart<float>(3, 3))
                            : (p == "d" ? lgp<double>(3) : lgp<float>(3));
    });
    f = [=] { return o->evaluate(n, threads); };
  } else if (k == "cart" || k == "lgp") {
    // cart <d|f> <who> <sizes, last the number of values>
    auto p = c.str(), who = c.str();
    auto n = c.is();
    e.v("n", n).s("who", who);
    std::string key = k + p;
    for (size_t i = 0; i + 1 < n.size(); ++i) key += "," + std::to_string(n[i]);
    o = object(key, [&] {
      return k == "cart" ? (p == "d" ? cart<double>(n[0], n[1])
                                     : cart<float>(n[0], n[1]))
                         : (p == "d" ? lgp<double>(n[0]) : lgp<float>(n[0]));
    });
    f = [=]() -> std::vector<long long> {
      o->add(who, size_t(n.back()));
      return {o->size()};
    };
  } else if (k == "mesh") {
    // mesh <sizes> <connectivity>
    auto n = c.is();
    auto tri = c.is();
    e.v("n", n).v("tri", tri);
    f = [=]() -> std::vector<long long> {
      Eigen::Matrix<int32_t, -1, 3> t(tri.size() / 3, 3);
      for (size_t i = 0; i < tri.size(); ++i) t(i / 3, i % 3) = int32_t(tri[i]);
      fes::mesh::Index m(line(n[0], 0, 1.25), line(n[1], 0, .75), t);
      return {(long long)m.n_positions(), (long long)m.n_triangles()};
    };
  } else if (k == "codes") {
    // codes <1|2> <triangles, rows> <position, value>
    auto d = c.i();
    auto n = c.is();
    auto code = c.is();
    e.i("d", d).v("n", n).v("code", code);
    f = [=]() -> std::vector<long long> {
      d == 1 ? lgp_of<1>(n[0], n[1], code) : lgp_of<2>(n[0], n[1], code);
      return {1};
    };
  } else if (k == "names") {
    // names <table|parse|find|cart|lgp> <names in hexadecimal>
    auto how = c.str();
    std::vector<std::string> names;
    for (auto& h : c.ss()) names.push_back(text(h));
    e.s("how", how).v("names", names);
    if (how == "cart")
      o = object("cartd", [] { return cart<double>(3, 3); });
    else if (how == "lgp")
      o = object("lgpd", [] { return lgp<double>(3); });
    else if (how == "find")
      o = object("table", [] { return std::make_shared<TableObject>(some(4)); });
    f = [=]() -> std::vector<long long> {
      if (how == "table") return {(long long)Table(names).size()};
      for (auto& x : names) {
        if (how == "parse")
          (void)fes::constituents::parse(x);
        else if (how == "find")
          (void)std::static_pointer_cast<TableObject>(o)->t.find(x);
        else
          o->add(x, how == "cart" ? 9 : 3);
      }
      return {0};
    };
  } else {
    // series|mods|map|harmonic <formulae> <threads> <constituents> <sizes>
    auto fm = formulae(c.str());
    auto threads = size_t(c.i());
    auto held = c.i();
    auto n = c.is();
    e.v("n", n).i("held", held);
    o = object("table" + std::to_string(held),
               [&] { return std::make_shared<TableObject>(some(held)); });
    const Table* t = &std::static_pointer_cast<TableObject>(o)->t;
    f = [=]() -> std::vector<long long> {
      if (k == "series") {
        Eigen::VectorXcd w = constants(n[2], 1).col(0);
        return {t->tide_from_tide_series(line(n[0], 1e8, 1e5), leaps(n[1]), w,
                                         fm)
                    .size()};
      }
      if (k == "mods") {
        auto r = t->compute_nodal_modulations(line(n[0], 1e8, 1e5), leaps(n[1]),
                                              fm);
        return {std::get<0>(r).rows(), std::get<0>(r).cols(),
                std::get<1>(r).rows(), std::get<1>(r).cols()};
      }
      if (k == "map") {
        auto r = t->tide_from_mapping(1e8, 20, constants(n[0], n[1]), fm,
                                      threads);
        return {r.rows(), r.cols()};
      }
      Eigen::MatrixXd a = constants(n[1], n[2]).real(),
                      b = constants(n[3], n[4]).real();
      return {Table::harmonic_analysis(line(n[0], 0, 1), a, b).size()};
    };
  }
  const auto before = o ? o->state() : "";
  const auto size = o ? o->size() : 0;
  const auto asked = o ? o->asked() : 0;
  std::vector<long long> r;
  std::string raised;
  try {
    r = f();
  } catch (...) {
    raised = trace::kind();
  }
  const auto later = o ? o->asked() : 0;
  e.s("raised", raised).v("result", r).i("size", size);
  e.i("asked", later - asked).b("same", !o || o->state() == before);
  trace::emit(e);
}

}  // namespace

int main() {
  return trace::loop([] { objects.clear(); }, [](Cmd& c) { run(c); });
}
