// Small property-based testing engine used by every check in /verif/props.
// A case is a pure function of a recorded sequence of 64-bit choices, so that any failure can be shrunk by editing the sequence and
// replayed from a file. Cases run in forked workers: crashes, sanitizer reports, exits and CPU-time overruns are failures of the case.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string key, message;
};
struct Discard {};

class Case {
 public:
  // --- choice source -------------------------------------------------------------------------------------------------------------
  explicit Case(uint64_t seed) : replaying_(false), state_(seed) {}
  explicit Case(std::vector<uint64_t> words) : replaying_(true), state_(0), input_(std::move(words)) {}
  uint64_t Raw(uint64_t bound);  // value in [0, bound); bound 0 means the full 64-bit range
  // --- generators ----------------------------------------------------------------------------------------------------------------
  int64_t Int(int64_t lo, int64_t hi);                    // inclusive, uniform
  int64_t EdgeInt(int64_t lo, int64_t hi);                // inclusive, endpoints favoured
  bool Bool() { return Raw(2) == 1; }
  bool Chance(double p) { return (double)Raw(1u << 20) >= (1.0 - p) * (1u << 20); }  // shrinks to false
  double Unit();                                          // [0,1)
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  double EdgeReal(double lo, double hi);                  // endpoints and middle favoured
  double LogReal(double lo, double hi);                   // log uniform, positive bounds
  double Signed(double lo_mag, double hi_mag);            // +- log uniform
  double Gauss();
  template <class T>
  T Of(std::initializer_list<T> l) {
    return *(l.begin() + Raw(l.size()));
  }
  template <class T>
  const T& From(const std::vector<T>& l) {
    return l[Raw(l.size())];
  }
  std::array<double, 3> Dir();                            // unit vector, uniform on the sphere; now and then an axis
  std::array<double, 4> Quat();                           // unit quaternion (x,y,z,w), uniform; now and then special
  std::string Word(const char* alphabet, size_t lo, size_t hi);
  // --- bookkeeping ---------------------------------------------------------------------------------------------------------------
  void Label(const std::string& l) { labels.push_back(l); }
  void NonTrivial(bool b = true) { nontrivial = nontrivial || b; }
  template <class... A>
  void Note(const A&... a) {
    if (description.size() > 4000) return;
    std::ostringstream s;
    s.precision(17);
    (void)std::initializer_list<int>{(s << a, 0)...};
    description += s.str();
    description += "; ";
    Publish();
  }
  template <class... A>
  [[noreturn]] void Fail(const std::string& key, const A&... a) {
    std::ostringstream s;
    s.precision(17);
    (void)std::initializer_list<int>{(s << a, 0)...};
    throw Failure{key, s.str()};
  }
  template <class... A>
  void Check(bool ok, const std::string& key, const A&... a) {
    checks++;
    if (!ok) Fail(key, a...);
  }
  // |got-want| <= abs_tol + rel_tol*|want|; NaN fails
  void Near(double got, double want, double abs_tol, double rel_tol, const std::string& key, const std::string& what = "");
  template <class G, class W>
  void NearVec(const G& got, const W& want, size_t n, double tol, const std::string& key, const std::string& what = "") {
    double d = 0;
    bool nan = false;
    for (size_t i = 0; i < n; i++) {
      const double e = std::fabs((double)got[i] - (double)want[i]);
      if (!(e == e)) nan = true;
      d = std::max(d, e);
    }
    checks++;
    if (nan || !(d <= tol)) {
      std::ostringstream s;
      s.precision(17);
      s << what << " got (";
      for (size_t i = 0; i < n; i++) s << (i ? ", " : "") << (double)got[i];
      s << ") want (";
      for (size_t i = 0; i < n; i++) s << (i ? ", " : "") << (double)want[i];
      s << ") max abs error " << d << " > " << tol;
      throw Failure{key, s.str()};
    }
  }
  [[noreturn]] void Skip() { throw Discard{}; }
  std::string TempDir();  // private scratch directory of this case, removed afterwards

  std::vector<uint64_t> words;  // recorded choices
  std::vector<std::string> labels;
  std::string description;
  bool nontrivial = false;
  long checks = 0;

 private:
  bool replaying_;
  uint64_t state_;
  std::vector<uint64_t> input_;
  size_t pos_ = 0;
  std::string temp_;
  friend struct Runner;
  uint64_t Next();
  void Publish();  // makes the description survive a crash
};

struct Facet {
  std::string name;
  std::function<void(Case&)> fn;
  int quick = 200;          // cases on the quick tier
  int thorough = 4000;      // cases on the thorough tier
  int batch = 25;           // cases per forked process (1: every case gets a fresh process)
  double cpu_limit_s = 20;  // CPU time allowed for one case
};

// Runs every facet of a property. Returns the process exit status.
int Main(int argc, char** argv, const std::string& property, const std::string& rule, const std::vector<Facet>& facets,
         const std::vector<std::string>& assumptions = {});

}  // namespace pbt
