// Astronomical elements and constituents (C06, C07).
#include "fes/angle/astronomic.hpp"
#include "fes/wave/table.hpp"
#include "trace.hpp"

using trace::Cmd;
using trace::Ev;
using fes::angle::Astronomic;
using fes::angle::Formulae;

namespace {

// Astronomical elements chosen by the scenario rather than by a date.
class Elements : public Astronomic {
 public:
  using Astronomic::Astronomic;
  void set(Cmd& c) {
    t_ = c.d();
    n_ = c.d();
    h_ = c.d();
    s_ = c.d();
    p1_ = c.d();
    p_ = c.d();
    i_ = c.d();
    xi_ = c.d();
    nu_ = c.d();
    x1ra_ = c.d();
    r_ = c.d();
    nuprim_ = c.d();
    nusec_ = c.d();
  }
};

std::string rec(const Astronomic& a) {
  auto n = [](const char* k, double x) {
    return "\"" + std::string(k) + "\":" + Ev::num(x);
  };
  return "{" + n("t", a.t()) + "," + n("n", a.n()) + "," + n("h", a.h()) +
         "," + n("s", a.s()) + "," + n("p1", a.p1()) + "," + n("p", a.p()) +
         "," + n("i", a.i()) + "," + n("xi", a.xi()) + "," + n("nu", a.nu()) +
         "," + n("x1ra", a.x1ra()) + "," + n("r", a.r()) + "," +
         n("nup", a.nuprim()) + "," + n("nus", a.nusec()) + "}";
}

Formulae formulae(const std::string& s) {
  if (s == "schureman1") return Formulae::kSchuremanOrder1;
  if (s == "schureman3") return Formulae::kSchuremanOrder3;
  if (s == "meeus") return Formulae::kMeeus;
  return static_cast<Formulae>(std::atoi(s.c_str()));
}

std::unique_ptr<Elements> a;
std::string f;

void nodal(const char* op, const std::string& route,
           const std::vector<std::shared_ptr<fes::Wave>>& w) {
  std::vector<double> v, u, ff, vu;
  for (auto& x : w) {
    v.push_back(x->v());
    u.push_back(x->u());
    ff.push_back(x->f());
    vu.push_back(x->vu());
  }
  trace::emit(Ev(op)
                  .s("route", route)
                  .raw("a", rec(*a))
                  .v("v", v)
                  .v("u", u)
                  .v("f", ff)
                  .v("vu", vu));
}

}  // namespace

int main() {
  return trace::loop(
      [] { a.reset(); },
      [](Cmd& c) {
        auto op = c.op();
        if (op == "new") {
          f = c.str();
          try {
            a.reset(new Elements(formulae(f)));
            trace::emit(Ev("new").s("formulae", f).b("ok", true));
          } catch (...) {
            trace::emit(Ev("new").s("formulae", f).b("ok", false));
          }
        } else if (op == "upd") {
          auto e = c.d();
          auto l = c.i();
          a->update(e, static_cast<uint16_t>(l));
          Astronomic b(formulae(f), e, static_cast<uint16_t>(l));
          trace::emit(Ev("upd").d("epoch", e).i("leap", l).raw("a", rec(*a)).raw(
              "b", rec(b)));
        } else if (op == "set") {
          a->set(c);
          trace::emit(Ev("set").raw("a", rec(*a)));
        } else if (op == "nodal") {
          auto route = c.str();
          std::vector<std::shared_ptr<fes::Wave>> w;
          fes::wave::Table t;
          if (route == "table") {
            t.compute_nodal_corrections(*a);
            for (size_t i = 0; i < 75; ++i)
              w.push_back(t[static_cast<fes::Constituent>(i)]);
          } else {
            for (size_t i = 0; i < 75; ++i) {
              auto x = fes::wave::Table::wave_factory(
                  static_cast<fes::Constituent>(i));
              x->nodal_g(*a);
              x->nodal_a(*a);
              w.push_back(x);
            }
          }
          nodal("nodal", route, w);
        } else if (op == "static") {
          auto id = c.i();
          auto w = fes::wave::Table::wave_factory(
              static_cast<fes::Constituent>(id));
          trace::emit(Ev("static")
                          .i("id", id)
                          .i("ident", w->ident())
                          .s("name", w->name())
                          .b("long", w->type() == fes::Wave::kLongPeriod)
                          .b("admit", w->admittance())
                          .b("dynamic", w->dynamic())
                          .d("freq", w->freq())
                          .d("period", w->period())
                          .s("doodson", w->doodson_number()));
        }
      });
}
