// C11, registry: a tree of names.  The model keeps for every path the function registered under it.
#include "dynd_sim.h"
#include <dynd/arithmetic.hpp>
#include <dynd/callables/base_callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/index.hpp>
#include <dynd/kernels/base_strided_kernel.hpp>
#include <dynd/math.hpp>
#include <dynd/option.hpp>
#include <dynd/random.hpp>
#include <dynd/range.hpp>
#include <dynd/registry.hpp>
#include <dynd/statistics.hpp>
using namespace dynd_sim;

namespace {
class plain_callable : public nd::base_callable {
public:
  plain_callable() : base_callable(ndt::type(std::string("() -> int32"))) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &, const ndt::type &dst_tp, size_t, const ndt::type *, size_t, const nd::array *, const std::map<std::string, ndt::type> &) { return dst_tp; }
};
// what is under a name: a function, or more names
struct M {
  nd::base_callable *f = nullptr;
  std::map<std::string, M> sub;
  int watchers = 0;
};
const char *const fn[] = {"f", "g", "add", "a b", "\xc3\xa9", "Z"};
enum { NF = 6, NC = 4 };
nd::callable fs[NC];

struct Tree {
  registry_entry *root = nullptr;
  M m;
};
// what the observers were told
struct Note {
  registry_entry *where;
  std::string name;
  registry_entry *what;
};
std::vector<Note> told[8];
void observer(registry_entry *where, const char *name, registry_entry *what) {
  callback();
  uint32_t m = rt::set_mode(M_HOST);
  told[rt::cur_fiber()].push_back({where, std::string(name), what});
  rt::set_mode(m);
}

enum { G_MAKE, G_INSERT, G_LOOK, G_WALK, G_WATCH, G_COPY, G_SHARED, G_GLOBAL, NK };
const char *const names[] = {"make a registry", "insert", "look up", "walk", "observe", "copy a registry", "use a shared registry", "use the registry of the library"};

const struct {
  const char *path;
  nd::callable *f;
} lib[] = {{"dynd.nd.add", &nd::add}, {"dynd.nd.subtract", &nd::subtract}, {"dynd.nd.equal", &nd::equal}, {"dynd.nd.max", &nd::max}, {"dynd.nd.sum", &nd::sum},
           {"dynd.nd.is_na", &nd::is_na}, {"dynd.nd.sqrt", &nd::sqrt}, {"dynd.nd.random.uniform", &nd::random::uniform}, {"dynd.nd.take", &nd::take}, {"dynd.nd.range", &nd::range},
           {"dynd.nd.real", &nd::real}, {"dynd.nd.less_equal", &nd::less_equal}};

struct C11R : Scenario {
  bool fresh;
  explicit C11R(bool f) : fresh(f) {}
  Tree own[8], shared;

  void generate(Rng &r, Plan &p) override {
    p.nf = fresh ? r.range(2, 4) : r.chance(1, 4) ? 1 : r.range(2, 4);
    int n = fresh ? r.range(2, 8) : r.range(6, 30);
    static const int mix[] = {G_MAKE, G_INSERT, G_INSERT, G_INSERT, G_INSERT, G_LOOK, G_LOOK, G_WALK, G_WATCH, G_COPY, G_SHARED, G_SHARED, G_GLOBAL};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), fresh ? G_GLOBAL : r.pick(mix), r.below(30000), r.below(30000), r.below(30000));
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d,%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  static M leaf(int c) {
    M m;
    m.f = fs[c].get();
    return m;
  }
  // what the constructors can say in one expression
  static void build(Tree &t, int shape, int a, int b) {
    registry_entry *e = nullptr;
    must_do("making a registry", [&] {
      switch (shape % 4) {
      case 0:
        e = new registry_entry({{"x", {{"f", fs[a]}, {"y", {{"g", fs[b]}, {"a b", fs[a]}}}}}});
        break;
      case 1:
        e = new registry_entry({{"f", fs[a]}, {"n", {{"add", fs[b]}}}, {"m", {{"m", {{"m", {{"f", fs[a]}}}}}}}});
        break;
      case 2:
        e = new registry_entry({{"dynd", {{"nd", {{"add", fs[a]}, {"g", fs[b]}}}}}});
        break;
      case 3:
        e = new registry_entry({{"g", fs[b]}});
        break;
      }
    });
    M m;
    switch (shape % 4) {
    case 0:
      m.sub["x"].sub["f"] = leaf(a);
      m.sub["x"].sub["y"].sub["g"] = leaf(b);
      m.sub["x"].sub["y"].sub["a b"] = leaf(a);
      break;
    case 1:
      m.sub["f"] = leaf(a);
      m.sub["n"].sub["add"] = leaf(b);
      m.sub["m"].sub["m"].sub["m"].sub["f"] = leaf(a);
      break;
    case 2:
      m.sub["dynd"].sub["nd"].sub["add"] = leaf(a);
      m.sub["dynd"].sub["nd"].sub["g"] = leaf(b);
      break;
    case 3:
      m.sub["g"] = leaf(b);
      break;
    }
    drop(t);
    t.root = e;
    t.m = m;
  }
  static void drop(Tree &t) {
    Mode q(M_SIM);
    delete t.root;
    t.root = nullptr;
  }
  // a copy of the library's string
  static std::string host(const std::string &s) {
    Mode q(M_SIM);
    char b[256];
    size_t n = std::min(s.size(), sizeof b);
    for (size_t i = 0; i < n; i++)
      b[i] = s.data()[i];
    Mode h(M_HOST);
    return std::string(b, n);
  }
  // a place in the model: names of what is there, or beside it
  static M *pick(M &m, Rng &r, std::string &path, bool space) {
    M *at = &m;
    path.clear();
    for (int d = r.below(5); d > 0 && !at->sub.empty(); d--) {
      auto it = at->sub.begin();
      std::advance(it, r.below((int)at->sub.size()));
      if (space && it->second.f)
        break;
      path += (path.empty() ? "" : ".") + it->first;
      at = &it->second;
    }
    return at;
  }
  static void check(registry_entry &e, const M &m, const std::string &path, const std::string &why) {
    bool is;
    nd::base_callable *f;
    must_do("reading an entry", [&] {
      is = e.is_namespace();
      f = e.value().get();
    });
    if (is != !m.f || f != m.f)
      rt::violation("wrong-entry", "%s: %s is %s", why.c_str(), path.c_str(), is != !m.f ? is ? "a namespace" : "a function" : "another function");
    std::string p = host(e.path());
    if (p != path)
      rt::violation("wrong-path", "%s: what is at %s says it is at %s", why.c_str(), path.c_str(), p.c_str());
  }
  static void walk(registry_entry &e, const M &m, const std::string &path, const std::string &why) {
    auto it = m.sub.begin();
    registry_entry::iterator i, end;
    must_do("walking a registry", [&] { i = e.begin(), end = e.end(); });
    for (;;) {
      bool more;
      must_do("walking a registry", [&] { more = i != end; });
      if (more != (it != m.sub.end()))
        rt::violation("wrong-entry", "%s: %s has %s names", why.c_str(), path.c_str(), more ? "more" : "fewer");
      if (!more)
        return;
      std::string n = host(i->first);
      if (n != it->first)
        rt::violation("wrong-entry", "%s: %s has a name %s in place of %s", why.c_str(), path.c_str(), n.c_str(), it->first.c_str());
      std::string p = path + (path.empty() ? "" : ".") + n;
      check(i->second, it->second, p, why);
      walk(i->second, it->second, p, why);
      must_do("walking a registry", [&] { ++i; });
      ++it;
    }
  }
  // looks for a path which may not be there
  static registry_entry *look(registry_entry &e, M &m, Rng &r) {
    std::string path;
    M *at = pick(m, r, path, false);
    switch (path.empty() ? 3 : r.below(8)) {
    case 0:
      path += ".";
      at = nullptr;
      break;
    case 1:
      path = "." + path;
      at = nullptr;
      break;
    case 2:
      path += r.chance(1, 2) ? "x" : ".zz";
      at = nullptr;
      break;
    case 3:
      path = "";
      at = nullptr;
      break;
    }
    // a name with something appended may be another one
    if (!at && !path.empty()) {
      M *q = &m;
      size_t i = 0;
      for (;;) {
        size_t j = path.find('.', i);
        auto it = q->sub.find(path.substr(i, j == std::string::npos ? j : j - i));
        if (it == q->sub.end()) {
          q = nullptr;
          break;
        }
        q = &it->second;
        if (j == std::string::npos)
          break;
        i = j + 1;
      }
      at = q;
    }
    registry_entry *got = nullptr;
    Outcome o;
    for (int round = 0; round < 2; round++) {
      o = attempt([&] {
        std::string p(path.data(), path.size());
        got = &e[p];
      });
      if (o.ok || !rt::op_fired_mask() || o.type != "std::bad_alloc")
        break;
      rt::op_faults_off();
      PROBE("again after a fault");
    }
    if (o.ok != !!at)
      rt::violation(o.ok ? "accepted" : "refused", "looking for \"%s\": %s", path.c_str(), o.ok ? "found" : (o.type + ": " + o.what).c_str());
    if (!o.ok) {
      if (o.type != "std::invalid_argument")
        rt::violation("wrong-error", "looking for \"%s\": %s: %s", path.c_str(), o.type.c_str(), o.what.c_str());
      PROBE("an unknown name was refused");
      return nullptr;
    }
    check(*got, *at, path, "a look at " + path);
    PROBE("looked up by path");
    return got;
  }
  static registry_entry *at(registry_entry *e, const std::string &path) {
    registry_entry *got = e;
    if (!path.empty())
      must_do("looking for a place", [&] {
        std::string p(path.data(), path.size());
        got = &(*e)[p];
      });
    return got;
  }
  void begin(const Plan &) override {
    for (auto &l : told)
      l.clear();
    if (fresh)
      return;
    {
      Mode q(M_QUIET);
      for (nd::callable &f : fs)
        f = nd::make_callable<plain_callable>();
    }
    build(shared, 0, 0, 1);
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 32) ^ ((uint64_t)(unsigned short)o.a[1] << 16) ^ (unsigned short)o.a[2]);
    int me = rt::cur_fiber();
    Tree &t = own[me];
    if (!t.root && o.kind != G_GLOBAL && o.kind != G_SHARED)
      build(t, r.below(4), r.below(NC), r.below(NC));
    switch (o.kind) {
    case G_MAKE:
      build(t, r.below(4), r.below(NC), r.below(NC));
      walk(*t.root, t.m, "", "a registry");
      PROBE("registries made");
      break;
    case G_INSERT: {
      std::string path;
      M *m = pick(t.m, r, path, true);
      registry_entry *e = at(t.root, path);
      std::string name = fn[r.below(NF)];
      int c = r.below(NC), c2 = r.below(NC);
      bool space = r.chance(1, 3), dup = m->sub.count(name);
      M what = leaf(c);
      if (space) {
        what = M();
        what.sub["f"] = leaf(c);
        what.sub["h"].sub["g"] = leaf(c2);
      }
      told[me].clear();
      Outcome oc;
      bool done = false;
      for (int round = 0; round < 2; round++) {
        oc = attempt([&] {
          std::string n(name.data(), name.size());
          if (space) {
            registry_entry x({{"f", fs[c]}, {"h", {{"g", fs[c2]}}}});
            e->insert({n, x});
          } else
            e->insert({n, registry_entry(fs[c])});
        });
        if (oc.ok || !rt::op_fired_mask() || (oc.type != "std::bad_alloc" && !oc.cb))
          break;
        // all or nothing: an observer that fails is told after the entry is there
        if (oc.cb || !told[me].empty()) {
          done = true;
          break;
        }
        rt::op_faults_off();
        walk(*t.root, t.m, "", "after a failed insertion");
        PROBE("again after a fault");
      }
      if (!done && oc.ok != !dup)
        rt::violation(oc.ok ? "accepted" : "refused", "inserting %s at %s: %s", name.c_str(), path.c_str(), oc.ok ? "accepted twice" : (oc.type + ": " + oc.what).c_str());
      if (dup) {
        if (oc.type != "std::runtime_error")
          rt::violation("wrong-error", "inserting %s at %s: %s: %s", name.c_str(), path.c_str(), oc.type.c_str(), oc.what.c_str());
        PROBE("a second entry of one name was refused");
      } else {
        m->sub[name] = what;
        PROBE("inserted");
        if (done)
          PROBE("an observer failed");
        if (m->watchers)
          PROBE("observers told");
      }
      size_t want = dup ? 0 : m->watchers;
      if (done ? told[me].size() >= want : told[me].size() != want)
        rt::violation("wrong-notice", "inserting %s at %s tells %zu observers of %zu", name.c_str(), path.c_str(), told[me].size(), want);
      for (Note &n : told[me])
        if (n.where != e || n.name != name || n.what == e)
          rt::violation("wrong-notice", "inserting %s at %s tells about %s", name.c_str(), path.c_str(), n.name.c_str());
      for (Note &n : told[me])
        check(*n.what, what, path + (path.empty() ? "" : ".") + name, "an observer's entry");
      told[me].clear();
      walk(*t.root, t.m, "", "after an insertion of " + name + " at " + path);
      break;
    }
    case G_LOOK:
      look(*t.root, t.m, r);
      break;
    case G_WALK:
      walk(*t.root, t.m, "", "a walk");
      PROBE("walked");
      break;
    case G_WATCH: {
      std::string path;
      M *m = pick(t.m, r, path, true);
      registry_entry *e = at(t.root, path);
      must_do("observing", [&] { e->observe(&observer); });
      m->watchers++;
      break;
    }
    case G_COPY: { // of the own one or of the shared one; the copy is independent
      bool sh = r.chance(1, 2);
      registry_entry *from = sh ? shared.root : t.root, *e = nullptr;
      M m = sh ? shared.m : t.m;
      must_do("copying a registry", [&] { e = new registry_entry(*from); });
      if (r.chance(1, 2)) {
        drop(t);
        t.root = e, t.m = m;
      } else {
        walk(*e, m, "", "a copy");
        Mode q(M_SIM);
        delete e;
      }
      walk(*t.root, t.m, "", "beside a copy");
      PROBE("copied");
      break;
    }
    case G_SHARED:
      if (r.chance(1, 3))
        walk(*shared.root, shared.m, "", "the shared registry");
      else
        look(*shared.root, shared.m, r);
      PROBE("shared registries");
      break;
    case G_GLOBAL: {
      auto &l = lib[r.below(sizeof lib / sizeof *lib)];
      nd::base_callable *f = nullptr, *want = nullptr;
      std::string p;
      bool split = r.chance(1, 2);
      registry_entry *e = nullptr;
      must_do("looking in the registry of the library", [&] {
        std::string path(l.path);
        if (split) {
          size_t i = path.find('.');
          e = &registered(path.substr(0, i))[path.substr(i + 1)];
        } else
          e = &registered(path);
        f = e->value().get();
        want = l.f->get();
      });
      p = host(e->path());
      if (f != want || p != l.path)
        rt::violation("wrong-entry", "%s is %s at %s", l.path, f == want ? "the function" : "another function", p.c_str());
      Outcome oc = attempt([&] {
        std::string path(l.path);
        registered(path + "_")[""];
      });
      if (oc.ok || (oc.type != "std::invalid_argument" && !rt::op_fired_mask()))
        rt::violation("wrong-entry", "%s_ is %s", l.path, oc.ok ? "there" : oc.type.c_str());
      if (!fresh && r.chance(1, 4)) {
        nd::array a, b;
        must_do("calling a function by its name", [&] {
          a = nd::array(r.below(100));
          b = a.f("add", a);
        });
        Mode q(M_SIM);
        a = b = nd::array();
      }
      PROBE("the registry of the library");
      break;
    }
    }
  }
  void end() override {
    if (fresh)
      return;
    for (Tree &t : own)
      drop(t);
    walk(*shared.root, shared.m, "", "the shared registry");
    drop(shared);
    Mode q(M_SIM);
    for (nd::callable &f : fs)
      f = nd::callable();
  }
};
Tuning tune(bool fresh) {
  Tuning t;
  t.callback = true;
  t.fresh = fresh;
  return t;
}
Register reg("C11", "registry", []() -> Scenario * { return new C11R(false); }, tune(false));
Register reg2("C11", "registry, first use", []() -> Scenario * { return new C11R(true); }, tune(true), 1);
} // namespace
