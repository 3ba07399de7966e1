// Axes, meshes, grids and finite elements: C09-C13, C18.
#include <new>
#include <set>
#include "models.hpp"

#ifdef BOUNDED_NEW
// A request for more memory than there is fails as it should (the sanitizer
// would end the program).
void* operator new(std::size_t n) {
  void* p = n > (std::size_t(1) << 30) ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

using namespace models;

namespace {

std::map<long long, std::shared_ptr<fes::Axis>> axes;
std::map<long long, std::shared_ptr<fes::mesh::Index>> meshes;
std::map<long long, std::shared_ptr<Model>> objs;
std::map<long long, std::pair<std::string, std::string>> saved;  // kind, state
std::map<long long, double> maxds;
Cfg cfg;

template <typename F>
std::string attempt(F f) {
  try {
    f();
  } catch (...) {
    return trace::kind();
  }
  return "";
}

Eigen::Matrix<int32_t, -1, 3> triangles(const std::vector<long long>& t) {
  Eigen::Matrix<int32_t, -1, 3> r(t.size() / 3, 3);
  for (size_t i = 0; i < t.size(); ++i) r(i / 3, i % 3) = int32_t(t[i]);
  return r;
}

std::string found(const fes::mesh::SelectedTriangle& t) {
  return Ev("t").b("in", t.inside)
      .i("i", t.index)
      .d("x", t.point.lon())
      .d("y", t.point.lat())
      .str();
}

std::string results(const Evaluated& r) {
  return "{\"h\":" + Ev::list(r.h.begin(), r.h.end()) +
         ",\"lp\":" + Ev::list(r.lp.begin(), r.lp.end()) +
         ",\"q\":" + Ev::list(r.q.begin(), r.q.end()) + "}";
}

Model& obj(long long k) {
  auto it = objs.find(k);
  if (it == objs.end()) throw std::logic_error("no object in this slot");
  return *it->second;
}

std::string state_of(long long k) {
  auto& m = obj(k);
  std::string data = "[";
  for (int id : m.identifiers()) {
    auto v = m.stored(id);
    data += (data.size() > 1 ? "," : "") + ("{\"id\":" + std::to_string(id)) +
            ",\"v\":" + Ev::list(v.begin(), v.end()) + "}";
  }
  return Ev("is")
      .s("type", m.type())
      .v("ids", m.identifiers())
      .v("dyn", m.dynamic())
      .b("empty", m.empty())
      .i("size", m.size())
      .raw("data", data + "]")
      .raw("desc", m.describe())
      .str();
}

// ---------------------------------------------------------------------------
// Damaged states (C14)

std::string lengths(const Model& m) {
  std::string data = "[";
  for (int id : m.identifiers())
    data += (data.size() > 1 ? "," : "") + ("{\"id\":" + std::to_string(id)) +
            ",\"n\":" + std::to_string(m.stored(id).size()) + "}";
  return data + "]";
}

// Restores an object of a kind ("axis", "mesh", "model": of the class of
// object `like`) from exactly these bytes, and uses it.  Tells what the object
// is; in full, or without values.
std::string restore(const std::string& kind, const std::string& bytes,
                    long long like, bool full) {
  // Nothing but the bytes of the state may be read.
  std::unique_ptr<char[]> heap(new char[bytes.size() ? bytes.size() : 1]);
  std::memcpy(heap.get(), bytes.data(), bytes.size());
  fes::string_view view(heap.get(), bytes.size());
  if (kind == "axis") {
    auto a = fes::Axis::setstate(view);
    heap.reset();
    const double end = a.size() ? a.end() : 0;
    for (double x : {0.0, 1.5, -200.0, 1e6, a.start(), end}) {
      (void)a.find_index(x);
      (void)a.find_index(x, true);
      (void)a.find_indices(x);
    }
    return Ev("is").raw("axis", axis_json(a)).str();
  }
  if (kind == "mesh") {
    auto m = fes::mesh::Index::setstate(view);
    heap.reset();
    for (double x : {0.0, 90.0, m.lon()(0)}) (void)m.search({x, m.lat()(0)}, 1e7);
    return Ev("is").raw("mesh", index_json(m)).str();
  }
  auto m = obj(like).setstate(std::string(view.data(), view.size()));
  heap.reset();
  Ev e("is");
  e.s("type", m->type())
      .v("ids", m->identifiers())
      .v("dyn", m->dynamic())
      .i("size", m->size())
      .raw("lens", lengths(*m))
      .raw("desc", m->describe());
  auto ids = m->identifiers();
  if (full) {
    std::string data = "[";
    for (int id : ids) {
      auto v = m->stored(id);
      data += (data.size() > 1 ? "," : "") +
              ("{\"id\":" + std::to_string(id)) + ",\"v\":" +
              Ev::list(v.begin(), v.end()) + "}";
    }
    e.raw("data", data + "]");
  }
  // Use it: around what it describes.
  std::vector<std::pair<double, double>> pts = m->somewhere();
  (void)m->look(pts, true);
  Batch b(pts.size());
  for (size_t i = 0; i < pts.size(); ++i) {
    b.e(i) = 1e8;
    b.l(i) = 22;
    b.x(i) = pts[i].first;
    b.y(i) = pts[i].second;
  }
  (void)m->eval(b.e, b.l, b.x, b.y, Cfg().settings(), 1);
  (void)m->getstate();
  // What fits the data it has fits it.
  if (!ids.empty()) {
    auto v = m->stored(ids[0]);
    e.s("again", attempt([&] { m->add(ids[0], v); }));
  }
  return e.str();
}

void patch(std::string& bytes, size_t pos, int width, const std::string& how) {
  if (pos >= bytes.size()) return;
  width = int(std::min<size_t>(size_t(width), bytes.size() - pos));
  int64_t v = 0;
  std::memcpy(&v, bytes.data() + pos, size_t(width));
  if (how[0] == '=')
    v = std::strtoll(how.c_str() + 1, nullptr, 10);
  else
    v = int64_t(uint64_t(v) + uint64_t(std::strtoll(how.c_str(), nullptr, 10)));
  std::memcpy(&bytes[pos], &v, size_t(width));
}

// The outcomes of many attempts: kinds of errors, distinct objects.
struct Outcomes {
  std::set<std::string> kinds, seen;
  std::string objects = "[";
  long long tried = 0;
  void attempt(const std::string& kind, const std::string& bytes,
               long long like, const std::string& where) {
    ++tried;
    std::string is;
    auto raised = ::attempt([&] { is = restore(kind, bytes, like, false); });
    if (!raised.empty())
      kinds.insert(raised);
    else if (seen.insert(is).second)
      objects += (objects.size() > 1 ? "," : "") +
                 ("{\"where\":" + where + ",\"is\":" + is + "}");
  }
  Ev& put(Ev& e) {
    return e.i("tried", tried).v("kinds", kinds).raw("objects", objects + "]");
  }
};

void damaged(Cmd& c) {
  const auto& op = c.op();
  auto from = c.i();
  const auto& p = saved.at(from);
  if (op == "cuts") {
    // cuts <saved> <like>: every strict prefix
    auto like = c.i();
    std::vector<long long> ok;
    std::set<std::string> kinds;
    for (size_t n = 0; n < p.second.size(); ++n) {
      auto raised = attempt(
          [&] { restore(p.first, p.second.substr(0, n), like, false); });
      if (raised.empty())
        ok.push_back(static_cast<long long>(n));
      else
        kinds.insert(raised);
    }
    trace::emit(Ev("cuts").i("from", from).s("kind", p.first)
                    .i("size", p.second.size()).v("ok", ok).v("kinds", kinds));
  } else if (op == "sweep") {
    // sweep <saved> <like> <first> <step> <width> <values>: one edit each
    auto like = c.i();
    auto first = size_t(c.i());
    auto step = size_t(c.i());
    auto width = int(c.i());
    auto how = c.ss();
    Outcomes o;
    for (size_t pos = first; pos < p.second.size(); pos += step)
      for (auto& h : how) {
        auto bytes = p.second;
        patch(bytes, pos, width, h);
        if (bytes != p.second)
          o.attempt(p.first, bytes, like,
                    "[" + std::to_string(pos) + "," + Ev::quote(h) + "]");
      }
    Ev e("sweep");
    trace::emit(o.put(e.i("from", from).s("kind", p.first).i("like", like)));
  } else if (op == "edits") {
    // edits <saved> <like> <n> <<m> <m times pos width value>>*
    auto like = c.i();
    auto n = c.i();
    Outcomes o;
    for (long long i = 0; i < n; ++i) {
      auto bytes = p.second;
      for (auto m = c.i(); m > 0; --m) {
        auto pos = size_t(c.i());
        auto width = int(c.i());
        patch(bytes, pos, width, c.str());
      }
      if (bytes != p.second)
        o.attempt(p.first, bytes, like, std::to_string(i));
    }
    Ev e("edits");
    trace::emit(o.put(e.i("from", from).s("kind", p.first).i("like", like)));
  } else if (op == "splice") {
    // splice <saved> <cut> <saved> <cut> <like>
    auto cut = size_t(c.i());
    auto other = c.i();
    const auto& q = saved.at(other);
    auto cut2 = size_t(c.i());
    auto like = c.i();
    auto bytes = p.second.substr(0, std::min(cut, p.second.size())) +
                 q.second.substr(std::min(cut2, q.second.size()));
    std::string is;
    auto raised = attempt([&] { is = restore(p.first, bytes, like, true); });
    Ev e("splice");
    e.i("from", from).i("with", other).s("kind", p.first).i("like", like);
    e.b("whole", bytes == p.second || bytes == q.second).s("raised", raised);
    trace::emit(is.empty() ? e : e.raw("is", is));
  } else {
    // wrong <saved> <kind> <like>: restored by another class
    auto kind = c.str();
    auto like = c.i();
    std::string is;
    auto raised = attempt([&] { is = restore(kind, p.second, like, false); });
    Ev e("wrong");
    e.i("from", from).s("kind", kind).i("like", like).s("raised", raised);
    trace::emit(is.empty() ? e : e.raw("is", is));
  }
}

void run(Cmd& c) {
  const auto& op = c.op();
  if (op == "axis") {
    // axis <slot> <points> <circular> [<epsilon>]
    auto k = c.i();
    auto p = c.ds();
    bool circ = c.i() != 0;
    auto eps = c.d();
    std::shared_ptr<fes::Axis> a;
    auto raised = attempt([&] {
      a = circ || eps != 1e-6 ? std::make_shared<fes::Axis>(vec(p), eps, circ)
                              : std::make_shared<fes::Axis>(vec(p));
    });
    Ev e("axis");
    e.i("slot", k).v("pts", p).b("circ", circ).d("eps", eps).s("raised",
                                                               raised);
    if (a) {
      axes[k] = a;
      e.raw("is", axis_json(*a));
    }
    trace::emit(e);
  } else if (op == "find") {
    auto k = c.i();
    auto x = c.ds();
    std::vector<long long> un, bo;
    std::vector<std::vector<long long>> fr;
    for (auto v : x) {
      un.push_back(axes.at(k)->find_index(v));
      bo.push_back(axes.at(k)->find_index(v, true));
      auto f = axes.at(k)->find_indices(v);
      if (f)
        fr.push_back({std::get<0>(*f), std::get<1>(*f)});
      else
        fr.push_back({});
    }
    trace::emit(Ev("find").i("slot", k).v("x", x).v("un", un).v("bo", bo).v(
        "fr", fr));
  } else if (op == "kept") {
    // kept <n> (<first> <last> <size>)*: axes saved and restored
    auto v = c.ds();
    std::vector<double> was, now;
    std::vector<bool> equal;
    for (size_t i = 0; i + 2 < v.size(); i += 3) {
      fes::Axis a(Eigen::VectorXd::LinSpaced(long(v[i + 2]), v[i], v[i + 1]));
      auto s = a.getstate();
      auto b = fes::Axis::setstate(fes::string_view(s.data(), s.size()));
      for (auto* x : {&a, &b}) {
        auto& out = x == &a ? was : now;
        for (double y : {x->start(), x->end(), x->step(), double(x->size())})
          out.push_back(y);
      }
      equal.push_back(a == b);
    }
    std::vector<long long> eq(equal.begin(), equal.end());
    trace::emit(Ev("kept").v("was", was).v("now", now).v("equal", eq));
  } else if (op == "at") {
    auto k = c.i();
    auto idx = c.is();
    std::vector<double> v;
    std::vector<std::string> raised;
    for (auto i : idx) {
      double y = 0;
      raised.push_back(attempt([&] { y = (*axes.at(k))(i); }));
      v.push_back(y);
    }
    trace::emit(
        Ev("at").i("slot", k).v("i", idx).v("v", v).v("raised", raised));
  } else if (op == "mesh") {
    // mesh <slot> <lon> <lat> <triangles>
    auto k = c.i();
    auto lon = c.ds();
    auto lat = c.ds();
    auto tri = c.is();
    std::shared_ptr<fes::mesh::Index> m;
    auto raised = attempt([&] {
      m = std::make_shared<fes::mesh::Index>(vec(lon), vec(lat),
                                             triangles(tri));
    });
    Ev e("mesh");
    e.i("slot", k).v("lon", lon).v("lat", lat).v("tri", tri).s("raised",
                                                               raised);
    if (m) {
      meshes[k] = m;
      e.raw("is", index_json(*m));
    }
    trace::emit(e);
  } else if (op == "search") {
    // search <slot> <maxd> <n> <lon lat>*
    auto k = c.i();
    auto maxd = c.d();
    auto n = c.i();
    std::string pts = "[", r = "[";
    for (long long i = 0; i < n; ++i) {
      auto x = c.d(), y = c.d();
      auto t = meshes.at(k)->search({x, y}, maxd);
      pts += (i ? ",{\"x\":" : "{\"x\":") + Ev::num(x) + ",\"y\":" +
             Ev::num(y) + "}";
      r += (i ? "," : "") + found(t);
    }
    trace::emit(Ev("search").i("slot", k).d("maxd", maxd).raw("pts", pts + "]")
                    .raw("r", r + "]"));
  } else if (op == "slot") {
    // slot <k> <cart|lgp ...>: a model
    auto k = c.i();
    std::string rest;
    while (c.more()) rest += c.str() + " ";
    Cmd d(rest);
    auto s = Spec::read(d);
    std::shared_ptr<Model> m;
    auto raised = attempt([&] { m = s.build(); });
    auto e = s.event();
    e.i("slot", k).s("raised", raised);
    if (m) {
      objs[k] = m;
      maxds[k] = s.max_distance;
      e.raw("is", state_of(k));
    }
    trace::emit(e);
  } else if (op == "add" || op == "addname") {
    // add <slot> <id|name> <values>
    auto k = c.i();
    auto who = c.str();
    auto v = complexes(c);
    auto raised = attempt([&] {
      if (op == "add")
        obj(k).add(int(std::strtol(who.c_str(), nullptr, 10)), v);
      else
        obj(k).add(who, v);
    });
    Ev e(op);
    e.i("slot", k).v("v", v).s("raised", raised);
    if (op == "add")
      e.i("id", std::strtol(who.c_str(), nullptr, 10));
    else
      e.s("name", who);
    trace::emit(e.raw("is", state_of(k)));
  } else if (op == "dyn") {
    auto k = c.i();
    auto ids = c.is();
    obj(k).dynamic(std::vector<int>(ids.begin(), ids.end()));
    trace::emit(Ev("dyn").i("slot", k).v("ids", ids).raw("is", state_of(k)));
  } else if (op == "clear") {
    auto k = c.i();
    obj(k).clear();
    trace::emit(Ev("clear").i("slot", k).raw("is", state_of(k)));
  } else if (op == "look") {
    // look <slot> <one accelerator> <n> <lon lat>*
    auto k = c.i();
    bool one = c.i() != 0;
    auto n = c.i();
    std::vector<std::pair<double, double>> pts;
    for (long long i = 0; i < n; ++i) {
      auto x = c.d();
      pts.emplace_back(x, c.d());
    }
    std::string r = "[";
    for (auto& s : obj(k).look(pts, one))
      r += (r.size() > 1 ? "," : "") +
           s.json("\"at\":" + obj(k).located(s.lon, s.lat, maxds[k]) + ",");
    trace::emit(Ev("look").i("slot", k).b("one", one).raw("r", r + "]"));
  } else if (op == "cfg") {
    cfg = Cfg::read(c);
    trace::emit(
        Ev("cfg").s("f", cfg.f).d("tol", cfg.tol).v("excluded", cfg.excluded));
  } else if (op == "eval") {
    // eval <slot> <threads> <batch>
    auto k = c.i();
    auto threads = size_t(c.i());
    auto b = Batch::read(c);
    auto r = obj(k).eval(b.e, b.l, b.x, b.y, cfg.settings(), threads);
    trace::emit(Ev("eval").i("slot", k).raw("reqs", b.json()).raw(
        "r", results(r)));
  } else if (op == "save") {
    // save <kind> <slot> <name>: the bytes are kept aside
    auto kind = c.str();
    auto k = c.i();
    auto to = c.i();
    std::string s = kind == "axis"   ? axes.at(k)->getstate()
                    : kind == "mesh" ? meshes.at(k)->getstate()
                                     : obj(k).getstate();
    saved[to] = {kind, s};
    trace::emit(Ev("save").s("kind", kind).i("slot", k).i("to", to));
  } else if (op == "load") {
    // load <saved> <like> <slot>: restored by the class of object `like`
    auto from = c.i();
    auto like = c.i();
    auto k = c.i();
    const auto& p = saved.at(from);
    std::string copy(p.second);
    auto view = fes::string_view(copy.data(), copy.size());
    Ev e("load");
    e.i("from", from).s("kind", p.first).i("slot", k);
    if (p.first == "axis") {
      axes[k] = std::make_shared<fes::Axis>(fes::Axis::setstate(view));
      copy.assign(copy.size(), '\xee');
      e.raw("is", axis_json(*axes[k])).b("equal", *axes[k] == *axes.at(like));
    } else if (p.first == "mesh") {
      meshes[k] = std::make_shared<fes::mesh::Index>(
          fes::mesh::Index::setstate(view));
      copy.assign(copy.size(), '\xee');
      e.raw("is", index_json(*meshes[k]));
    } else {
      objs[k] = obj(like).setstate(p.second);
      maxds[k] = maxds[like];
      e.raw("is", state_of(k));
    }
    trace::emit(e);
  } else if (op == "cuts" || op == "sweep" || op == "edits" ||
             op == "splice" || op == "wrong") {
    damaged(c);
  } else {
    trace::emit(Ev("bad-command"));
  }
}

}  // namespace

int main() {
  return trace::loop(
      [] {
        axes.clear();
        meshes.clear();
        objs.clear();
        saved.clear();
        cfg = Cfg();
      },
      [](Cmd& c) {
        try {
          run(c);
        } catch (const std::exception& e) {
          trace::emit(
              Ev("raised").s("kind", trace::kind()).s("what", e.what()));
        }
      });
}
