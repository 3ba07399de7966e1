// Tidal models and operations on them, driven by commands (C01-C03, C10-C14,
// C18, C19).
#pragma once
#include <Eigen/Core>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <thread>

#include "fes/axis.hpp"
#include "fes/mesh/index.hpp"
#include "fes/settings.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "trace.hpp"

namespace models {

using trace::Cmd;
using trace::Ev;
using fes::Constituent;

inline fes::angle::Formulae formulae(const std::string& s) {
  if (s == "schureman1") return fes::angle::Formulae::kSchuremanOrder1;
  if (s == "schureman3") return fes::angle::Formulae::kSchuremanOrder3;
  return fes::angle::Formulae::kMeeus;
}

inline fes::TideType tide_type(const std::string& s) {
  return s == "tide" ? fes::kTide : fes::kRadial;
}

inline Eigen::VectorXd vec(const std::vector<double>& x) {
  Eigen::VectorXd r(x.size());
  for (size_t i = 0; i < x.size(); ++i) r(i) = x[i];
  return r;
}

// Observations of one position.
struct Seen {
  double lon, lat;
  int quality;
  std::vector<int> ids;
  std::vector<std::complex<double>> values;
  std::string json(const std::string& more = "") const {
    return "{" + more + "\"x\":" + Ev::num(lon) + ",\"y\":" + Ev::num(lat) +
           ",\"q\":" + std::to_string(quality) +
           ",\"ids\":" + Ev::list(ids.begin(), ids.end()) +
           ",\"v\":" + Ev::list(values.begin(), values.end()) + "}";
  }
};

struct Evaluated {
  std::vector<double> h, lp;
  std::vector<int> q;
};

// A model of either precision, behind one interface.
class Model {
 public:
  virtual ~Model() = default;
  virtual void add(int id, const std::vector<std::complex<double>>& v) = 0;
  virtual void add(const std::string& name,
                   const std::vector<std::complex<double>>& v) = 0;
  virtual std::vector<std::complex<double>> stored(int id) const = 0;
  virtual void dynamic(const std::vector<int>& ids) = 0;
  virtual std::vector<int> dynamic() const = 0;
  virtual std::vector<int> identifiers() const = 0;
  virtual bool empty() const = 0;
  virtual size_t size() const = 0;
  virtual std::string type() const = 0;
  virtual void clear() = 0;
  virtual std::vector<Seen> look(
      const std::vector<std::pair<double, double>>& pts, bool one_acc) const = 0;
  virtual Evaluated eval(const Eigen::VectorXd& e,
                         const fes::Vector<uint16_t>& l,
                         const Eigen::VectorXd& x, const Eigen::VectorXd& y,
                         const fes::Settings& s, size_t threads) const = 0;
  virtual std::unique_ptr<fes::Accelerator> accelerator(
      const std::string& f, double tol) const = 0;
  virtual std::string getstate() const = 0;
  virtual std::unique_ptr<Model> setstate(const std::string& s) const = 0;
  // The triangle found at a position: [] or [index, x, y], as JSON
  virtual std::string located(double x, double y, double maxd) const = 0;
  // What the getters of the class tell, as JSON
  virtual std::string describe() const = 0;
  // A few positions in it and out of it
  virtual std::vector<std::pair<double, double>> somewhere() const = 0;
};

inline std::string axis_json(const fes::Axis& a) {
  return Ev("axis")
      .i("n", std::max<int64_t>(-1, std::min<int64_t>(a.size(), 2000000000)))
      .d("start", a.size() ? a.start() : 0)
      .d("step", a.step())
      .d("end", a.size() ? a.end() : 0)
      .d("min", a.size() ? a.min_value() : 0)
      .d("max", a.size() ? a.max_value() : 0)
      .b("asc", a.is_ascending())
      .b("circ", a.is_circular())
      .str();
}

inline std::string index_json(const fes::mesh::Index& m) {
  std::vector<double> lon(m.lon().data(), m.lon().data() + m.lon().size());
  std::vector<double> lat(m.lat().data(), m.lat().data() + m.lat().size());
  std::vector<std::vector<int>> t;
  for (Eigen::Index i = 0; i < m.triangles().rows(); ++i)
    t.push_back({m.triangles()(i, 0), m.triangles()(i, 1), m.triangles()(i, 2)});
  return Ev("index")
      .i("np", m.n_positions())
      .i("nt", m.n_triangles())
      .v("lon", lon)
      .v("lat", lat)
      .v("tri", t)
      .str();
}

template <typename T>
std::string describe_of(const fes::tidal_model::Cartesian<T>& m) {
  return "{\"lon\":" + axis_json(m.lon()) + ",\"lat\":" + axis_json(m.lat()) +
         "}";
}
template <typename T, int N>
std::string describe_of(const fes::tidal_model::LGP<T, N>& m) {
  return index_json(*m.index());
}

template <typename T>
std::vector<std::pair<double, double>> some_of(
    const fes::tidal_model::Cartesian<T>& m) {
  const auto &x = m.lon(), &y = m.lat();
  if (!x.size() || !y.size()) return {{0, 0}, {10, 10}};
  return {{x.start(), y.start()}, {x.end(), y.end()}, {x.end(), y.start()},
          {x.start() + .5 * x.step(), y.start() + .5 * y.step()},
          {x.end() - .3 * x.step(), y.end() - .7 * y.step()},
          {x.end() + .3 * x.step(), y.end() - .7 * y.step()},
          {x.start() + 1e6 * x.step(), 0}, {0, 1e6}};
}
template <typename T, int N>
std::vector<std::pair<double, double>> some_of(
    const fes::tidal_model::LGP<T, N>& m) {
  const auto& x = *m.index();
  std::vector<std::pair<double, double>> r{{0, 0}, {400, 95}};
  // in triangles, and on a vertex
  for (Eigen::Index i = 0; i < x.triangles().rows() && i < 200; ++i) {
    double lon = 0, lat = 0;
    for (int k = 0; k < 3; ++k) {
      lon += x.lon()(x.triangles()(i, k)) / 3;
      lat += x.lat()(x.triangles()(i, k)) / 3;
    }
    r.emplace_back(lon, lat);
    r.emplace_back(x.lon()(x.triangles()(i, i % 3)),
                   x.lat()(x.triangles()(i, i % 3)));
  }
  return r;
}

template <typename T>
std::string locate_in(const fes::tidal_model::Cartesian<T>&, double, double,
                      double) {
  return "[]";
}
template <typename T, int N>
std::string locate_in(const fes::tidal_model::LGP<T, N>& m, double x, double y,
                      double maxd) {
  auto t = m.index()->search({x, y}, maxd);
  if (t.index < 0) return "[]";
  return "[" + std::to_string(t.index) + "," + Ev::num(t.point.lon()) + "," +
         Ev::num(t.point.lat()) + "]";
}

template <typename T, typename M>
class ModelOf : public Model {
 public:
  explicit ModelOf(std::shared_ptr<M> m) : m_(std::move(m)) {}
  static fes::Vector<std::complex<T>> data(
      const std::vector<std::complex<double>>& v) {
    fes::Vector<std::complex<T>> w(v.size());
    for (size_t i = 0; i < v.size(); ++i)
      w(i) = std::complex<T>(static_cast<T>(v[i].real()),
                             static_cast<T>(v[i].imag()));
    return w;
  }
  void add(int id, const std::vector<std::complex<double>>& v) override {
    base().add_constituent(static_cast<Constituent>(id), data(v));
  }
  void add(const std::string& n,
           const std::vector<std::complex<double>>& v) override {
    base().add_constituent(n, data(v));
  }
  std::vector<std::complex<double>> stored(int id) const override {
    std::vector<std::complex<double>> r;
    auto it = m_->data().find(static_cast<Constituent>(id));
    if (it != m_->data().end())
      for (Eigen::Index i = 0; i < it->second.size(); ++i)
        r.push_back(static_cast<std::complex<double>>(it->second(i)));
    return r;
  }
  void dynamic(const std::vector<int>& ids) override {
    std::vector<Constituent> c;
    for (int i : ids) c.push_back(static_cast<Constituent>(i));
    m_->dynamic(c);
  }
  std::vector<int> dynamic() const override {
    std::vector<int> r;
    for (auto c : m_->dynamic()) r.push_back(c);
    return r;
  }
  std::vector<int> identifiers() const override {
    std::vector<int> r;
    for (auto c : m_->identifiers()) r.push_back(c);
    return r;
  }
  bool empty() const override { return m_->empty(); }
  size_t size() const override { return m_->size(); }
  std::string type() const override {
    return m_->tide_type() == fes::kTide     ? "tide"
           : m_->tide_type() == fes::kRadial ? "radial"
                                             : "?";
  }
  void clear() override { m_->clear(); }
  std::vector<Seen> look(const std::vector<std::pair<double, double>>& pts,
                         bool one_acc) const override {
    std::vector<Seen> r;
    std::unique_ptr<fes::Accelerator> acc;
    const auto& b = base();
    for (auto& p : pts) {
      if (!acc || !one_acc)
        acc.reset(m_->accelerator(formulae("schureman1"), 0));
      fes::Quality q{};
      const auto& v = b.interpolate({p.first, p.second}, q, acc.get());
      Seen s{p.first, p.second, int(q), {}, {}};
      for (auto& x : v) {
        s.ids.push_back(x.first);
        s.values.push_back(x.second);
      }
      r.push_back(s);
    }
    return r;
  }
  Evaluated eval(const Eigen::VectorXd& e, const fes::Vector<uint16_t>& l,
                 const Eigen::VectorXd& x, const Eigen::VectorXd& y,
                 const fes::Settings& s, size_t threads) const override {
    const fes::AbstractTidalModel<T>* b = m_.get();
    auto t = fes::evaluate_tide(b, e, l, x, y, s, threads);
    Evaluated r;
    for (Eigen::Index i = 0; i < std::get<0>(t).size(); ++i)
      r.h.push_back(std::get<0>(t)(i));
    for (Eigen::Index i = 0; i < std::get<1>(t).size(); ++i)
      r.lp.push_back(std::get<1>(t)(i));
    for (Eigen::Index i = 0; i < std::get<2>(t).size(); ++i)
      r.q.push_back(int(std::get<2>(t)(i)));
    return r;
  }
  std::unique_ptr<fes::Accelerator> accelerator(const std::string& f,
                                                double tol) const override {
    return std::unique_ptr<fes::Accelerator>(
        m_->accelerator(formulae(f), tol));
  }
  std::string getstate() const override { return m_->getstate(); }
  std::unique_ptr<Model> setstate(const std::string& s) const override {
    // The restored model must not depend on the bytes it was read from.
    std::unique_ptr<char[]> copy(new char[s.size() ? s.size() : 1]);
    std::memcpy(copy.get(), s.data(), s.size());
    auto r = std::make_shared<M>(
        M::setstate(fes::string_view(copy.get(), s.size())));
    std::memset(copy.get(), 0xee, s.size());
    return std::unique_ptr<Model>(new ModelOf<T, M>(r));
  }
  std::string located(double x, double y, double maxd) const override {
    return locate_in(*m_, x, y, maxd);
  }
  std::string describe() const override { return describe_of(*m_); }
  std::vector<std::pair<double, double>> somewhere() const override {
    return some_of(*m_);
  }

 private:
  fes::AbstractTidalModel<T>& base() const { return *m_; }
  std::shared_ptr<M> m_;
};

// A Cartesian model or LGP model, built by a command.
//  cart <d|f> <type> <rowmajor> <lon points> <circular> <lat points>
//  lgp <1|2> <d|f> <type> <maxdist> <lon> <lat> <triangles> <codes>
struct Spec {
  std::string op, prec, type;
  bool row_major{}, circular{};
  int n{};
  double max_distance{};
  std::vector<double> lon, lat;
  std::vector<long long> tri, codes;

  static Spec read(Cmd& c) {
    Spec s;
    s.op = c.op();
    if (s.op == "cart") {
      s.prec = c.str();
      s.type = c.str();
      s.row_major = c.i() != 0;
      s.lon = c.ds();
      s.circular = c.i() != 0;
      s.lat = c.ds();
    } else {
      s.n = int(c.i());
      s.prec = c.str();
      s.type = c.str();
      s.max_distance = c.d();
      s.lon = c.ds();
      s.lat = c.ds();
      s.tri = c.is();
      s.codes = c.is();
    }
    return s;
  }
  template <typename T>
  std::unique_ptr<Model> make() const {
    if (op == "cart") {
      using M = fes::tidal_model::Cartesian<T>;
      return std::unique_ptr<Model>(new ModelOf<T, M>(std::make_shared<M>(
          fes::Axis(vec(lon), 1e-6, circular), fes::Axis(vec(lat)),
          tide_type(type), row_major)));
    }
    Eigen::Matrix<int32_t, -1, 3> t(tri.size() / 3, 3);
    for (size_t i = 0; i < tri.size(); ++i) t(i / 3, i % 3) = int(tri[i]);
    auto index = std::make_shared<fes::mesh::Index>(vec(lon), vec(lat), t);
    return n == 1 ? lgp<T, 1, fes::tidal_model::LGP1<T>>(index)
                  : lgp<T, 2, fes::tidal_model::LGP2<T>>(index);
  }
  template <typename T, int N, typename M>
  std::unique_ptr<Model> lgp(std::shared_ptr<fes::mesh::Index> index) const {
    Eigen::Matrix<int, Eigen::Dynamic, N * 3> k(codes.size() / (3 * N), 3 * N);
    for (size_t i = 0; i < codes.size(); ++i)
      k(i / (3 * N), i % (3 * N)) = int(codes[i]);
    return std::unique_ptr<Model>(new ModelOf<T, M>(
        std::make_shared<M>(index, k, tide_type(type), max_distance)));
  }
  std::unique_ptr<Model> build() const {
    return prec == "d" ? make<double>() : make<float>();
  }
  Ev event() const {
    Ev e(op);
    e.s("p", prec).s("type", type).v("lon", lon).v("lat", lat);
    if (op == "cart") {
      e.b("major", row_major).b("circ", circular);
    } else {
      e.i("n", n).d("maxd", max_distance).v("tri", tri).v("codes", codes);
    }
    return e;
  }
};

// A batch of requests: n then n times <epoch leap lon lat>.
struct Batch {
  Eigen::VectorXd e, x, y;
  fes::Vector<uint16_t> l;
  explicit Batch(size_t n = 0) : e(n), x(n), y(n), l(n) {}
  static Batch read(Cmd& c) {
    Batch b(size_t(c.i()));
    for (Eigen::Index i = 0; i < b.e.size(); ++i) {
      b.e(i) = c.d();
      b.l(i) = uint16_t(c.i());
      b.x(i) = c.d();
      b.y(i) = c.d();
    }
    return b;
  }
  Batch pick(const std::vector<long long>& idx) const {
    Batch b(idx.size());
    for (size_t i = 0; i < idx.size(); ++i) {
      b.e(i) = e(idx[i]);
      b.l(i) = l(idx[i]);
      b.x(i) = x(idx[i]);
      b.y(i) = y(idx[i]);
    }
    return b;
  }
  std::string json() const {
    std::string r = "[";
    for (Eigen::Index i = 0; i < e.size(); ++i) {
      if (i) r += ",";
      r += "{\"e\":" + Ev::num(e(i)) + ",\"l\":" + std::to_string(l(i)) +
           ",\"x\":" + Ev::num(x(i)) + ",\"y\":" + Ev::num(y(i)) + "}";
    }
    return r + "]";
  }
};

//  <formulae> <tolerance> <n excluded ids>
struct Cfg {
  std::string f{"schureman1"};
  double tol{};
  std::vector<long long> excluded;
  static Cfg read(Cmd& c) {
    Cfg s;
    s.f = c.str();
    s.tol = c.d();
    s.excluded = c.is();
    return s;
  }
  fes::Settings settings() const {
    std::vector<Constituent> x;
    for (auto i : excluded) x.push_back(static_cast<Constituent>(i));
    return fes::Settings(formulae(f), tol, x);
  }
};

inline std::vector<std::complex<double>> complexes(Cmd& c) {
  std::vector<std::complex<double>> v(size_t(c.i()));
  for (auto& x : v) {
    double re = c.d();
    x = {re, c.d()};
  }
  return v;
}

}  // namespace models
