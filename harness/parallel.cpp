// Sharing out work between threads: C15.
#include <dlfcn.h>
#include <pthread.h>

#include <atomic>
#include <chrono>
#include <mutex>
#include <set>
#include <thread>

#include "fes/detail/thread.hpp"
#include "fes/tide.hpp"
#include "fes/wave/table.hpp"
#include "trace.hpp"

using trace::Cmd;
using trace::Ev;

namespace {
std::atomic<long long> created{0};
std::set<long long> refused;  // the creations of threads that fail
std::atomic<int> cpus{-1};    // what the system tells, -1: the truth
}  // namespace

#ifdef INTERPOSE
// The system may refuse to create a thread, or not know the number of CPUs.
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a,
                              void* (*f)(void*), void* x) noexcept {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*),
                     void*);
  static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create"));
  if (refused.count(created++)) return EAGAIN;
  return real(t, a, f, x);
}
extern "C" int get_nprocs(void) noexcept {
  using fn = int (*)();
  static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "get_nprocs"));
  return cpus >= 0 ? cpus.load() : real();
}
#endif

namespace {

struct Oops {
  long long item;
};

// What happens, in the order in which it happens.
class Log {
 public:
  void put(const std::string& e) {
    std::lock_guard<std::mutex> g(m_);
    e_.push_back(e);
  }
  void call() {
    ++active;
    put("{\"op\":\"call\"}");
  }
  void left() {
    put("{\"op\":\"left\"}");
    --active;
  }
  void item(long long i) {
    put("{\"op\":\"item\",\"i\":" + std::to_string(i) + "}");
  }
  void fail(long long i) {
    put("{\"op\":\"fail\",\"i\":" + std::to_string(i) + "}");
  }
  void flush() {
    // Work that outlives the call shows in the trace.
    for (int k = 0; k < 20 && active; ++k)
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
    std::lock_guard<std::mutex> g(m_);
    for (auto& e : e_) std::printf("E %s\n", e.c_str());
    e_.clear();
  }
  std::atomic<int> active{0};

 private:
  std::mutex m_;
  std::vector<std::string> e_;
};
Log* journal = nullptr;

std::set<long long> failing;
int slow = 0;

void pause(long long i) {
  if (slow && i % 7 < slow)
    std::this_thread::sleep_for(std::chrono::microseconds(30 * (i % 5)));
}

void process(long long i) {
  pause(i);
  if (failing.count(i)) {
    journal->fail(i);
    if (i % 2) throw Oops{i};
    throw std::runtime_error(std::to_string(i));
  }
  journal->item(i);
}

// The end of a call, however it ends.
struct Inside {
  Inside() { journal->call(); }
  ~Inside() { journal->left(); }
};

template <typename F>
void outcome(F f) {
  try {
    f();
    journal->put("{\"op\":\"returned\"}");
  } catch (const Oops& e) {
    journal->put("{\"op\":\"raised\",\"i\":" + std::to_string(e.item) + "}");
  } catch (const std::runtime_error& e) {
    journal->put("{\"op\":\"raised\",\"i\":" +
                 std::to_string(std::atoi(e.what())) + "}");
  } catch (...) {
    journal->put("{\"op\":\"raised\",\"i\":-1}");
  }
}

// A model without grid: it only tells which positions are asked for.
class Told : public fes::AbstractTidalModel<double> {
 public:
  auto accelerator(const fes::angle::Formulae& f, const double tol) const
      -> fes::Accelerator* override {
    return new fes::Accelerator(f, tol, 0);
  }
  auto add_constituent(const fes::Constituent,
                       fes::Vector<std::complex<double>>) -> void override {}
  using fes::AbstractTidalModel<double>::interpolate;
  auto interpolate(const fes::geometry::Point& p, fes::Quality& q,
                   fes::Accelerator* acc) const
      -> const fes::ConstituentValues& override {
    Inside in;
    q = fes::kExtrapolated2;
    acc->clear();
    process(static_cast<long long>(p.lon()));
    return acc->values();
  }
};

void begin(Cmd& c, Ev& e, long long& size, size_t& threads) {
  // <size> <threads> <cpus> <slow> <refused creations> <failing items>
  size = c.i();
  auto n = c.str();
  threads = n == "max" ? SIZE_MAX : size_t(std::strtoull(n.c_str(), nullptr, 10));
  cpus = int(c.i());
  slow = int(c.i());
  auto r = c.is();
  auto f = c.is();
  refused = std::set<long long>(r.begin(), r.end());
  failing = std::set<long long>(f.begin(), f.end());
  e.i("size", size).s("threads", n).i("cpus", cpus).v("fails", f);
}
void over() {
  refused.clear();
  cpus = -1;
}

void run(Cmd& c) {
  const auto& op = c.op();
  long long size;
  size_t threads;
  if (op == "for") {
    Ev e("start");
    e.s("via", "for");
    begin(c, e, size, threads);
    trace::emit(e);
    created = 0;
    outcome([&] {
      fes::detail::parallel_for(
          [](const int64_t a, const int64_t b) {
            Inside in;
            for (int64_t i = a; i < b; ++i) process(i);
          },
          size_t(size), threads);
    });
    over();
    journal->flush();
  } else if (op == "tide") {
    Ev e("start");
    e.s("via", "tide");
    begin(c, e, size, threads);
    trace::emit(e);
    Told m;
    Eigen::VectorXd t(size), x(size), y(size);
    fes::Vector<uint16_t> l(size);
    for (long long i = 0; i < size; ++i) {
      t(i) = 1e8 + double(i);
      x(i) = double(i);
      y(i) = 0;
      l(i) = 22;
    }
    std::vector<int> q;
    created = 0;
    outcome([&] {
      auto r = fes::evaluate_tide<double>(&m, t, l, x, y, fes::Settings(),
                                          threads);
      for (Eigen::Index i = 0; i < std::get<2>(r).size(); ++i)
        q.push_back(std::get<2>(r)(i));
    });
    over();
    journal->flush();
    trace::emit(Ev("results").v("q", q));
  } else if (op == "map") {
    // A map of one constituent, whose amplitude tells the point
    auto slot = Ev("map");
    begin(c, slot, size, threads);
    fes::wave::Table table(std::vector<fes::Constituent>{fes::kM2});
    Eigen::MatrixXcd w(1, size), one(1, 1);
    for (long long i = 0; i < size; ++i) w(0, i) = double(i + 1);
    one(0, 0) = 1;
    const double unit =
        table.tide_from_mapping(1e8, 22, one, fes::angle::Formulae::kMeeus, 1)(0, 0);
    auto r = table.tide_from_mapping(1e8, 22, w, fes::angle::Formulae::kMeeus, threads);
    over();
    std::vector<long long> points;
    for (Eigen::Index i = 0; i < r.rows(); ++i)
      points.push_back(std::llround(r(i, 0) / unit * 1000));
    trace::emit(slot.v("points", points));
  } else if (op == "many") {
    // as "for", for a lot of items: how many times each was processed
    Ev e("many");
    begin(c, e, size, threads);
    std::vector<std::atomic<int>> times(size);
    std::atomic<long long> active{0};
    created = 0;
    fes::detail::parallel_for(
        [&](const int64_t a, const int64_t b) {
          ++active;
          for (int64_t i = a; i < b; ++i)
            if (i < 0 || i >= size)
              std::abort();
            else
              ++times[i];
          --active;
        },
        size_t(size), threads);
    long long late = active;
    over();
    int lo = 1, hi = 1;
    for (auto& x : times) {
      lo = std::min(lo, x.load());
      hi = std::max(hi, x.load());
    }
    trace::emit(e.i("late", late).i("least", lo).i("most", hi));
  } else {
    trace::emit(Ev("bad-command"));
  }
}

}  // namespace

int main() {
  static Log log;
  journal = &log;
  return trace::loop([] { over(); },
                     [](Cmd& c) {
                       try {
                         run(c);
                       } catch (const std::exception& e) {
                         trace::emit(Ev("unexpected").s("what", e.what()));
                       }
                     });
}
