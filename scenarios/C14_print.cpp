// C14: printing arrays.  The text is read back against the model of the array: elements in order, what is left out marked by
// "...", nothing left out of short dimensions; a failing stream gets a prefix of the text and says that it failed.
#include "typed.h"
#include <dynd/types/char_type.hpp>
#include <dynd/types/type_type.hpp>
using namespace typed;

namespace {
enum { A_PRINT, A_VIEW, A_NEW, A_SPECIAL, A_DEBUG, NK };
const char *const names[] = {"print", "print a view", "print a new array", "print special types", "describe"};
enum { NF = 5 };

struct Sink : std::streambuf { // takes `left` bytes and then fails, as a full disk does
  std::string got;
  uint64_t left;
  bool throws, failed = false;
  Sink(uint64_t l, bool t) : left(l), throws(t) {}
  int overflow(int c) override {
    char ch = (char)c;
    return c != EOF && xsputn(&ch, 1) == 1 ? c : EOF;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    uint32_t m = rt::set_mode(M_HOST);
    std::streamsize k = (uint64_t)n < left ? n : (std::streamsize)left;
    got.append(p, k);
    rt::stream_bytes(k);
    left -= k;
    if (k < n) {
      failed = true;
      rt::op_note_fired(rt::FK_STREAM);
    }
    rt::set_mode(m);
    if (k < n && throws)
      throw std::runtime_error("simulated: the stream fails");
    return k;
  }
};

// ---- reading a printed array back ---------------------------------------------------------------------------------------
std::string hex(const std::string &s) {
  std::string o;
  for (unsigned char c : s)
    o += fmt("%02x", c);
  return o;
}
std::string quoted(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    uint32_t cp = c;
    int more = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
    if (more)
      cp = c & (0x3f >> more);
    while (more-- && i + 1 < s.size())
      cp = cp << 6 | ((unsigned char)s[++i] & 0x3f);
    switch (cp) {
    case '\b': o += "\\b"; break;
    case '\f': o += "\\f"; break;
    case '\n': o += "\\n"; break;
    case '\r': o += "\\r"; break;
    case '\t': o += "\\t"; break;
    case '\\': o += "\\\\"; break;
    case '"': o += "\\\""; break;
    default:
      if (cp >= 0x20 && cp < 0x7f)
        o += (char)cp;
      else if (cp < 0x10000)
        o += fmt("\\u%04x", cp);
      else
        o += fmt("\\U%08x", cp);
    }
  }
  return o + "\"";
}
struct Reader {
  const std::string &s;
  std::string why;
  bool elided = false;
  explicit Reader(const std::string &s) : s(s) {}
  void ws(size_t &p) const {
    while (p < s.size() && (s[p] == ' ' || s[p] == '\n'))
      p++;
  }
  bool lit(size_t &p, const std::string &l) {
    if (s.compare(p, l.size(), l) == 0) {
      p += l.size();
      return true;
    }
    if (why.empty())
      why = "expected " + l.substr(0, 100) + " at " + std::to_string(p) + " before " + s.substr(p, 40);
    return false;
  }
  static bool hexdigit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
  bool raw(size_t &p, const std::string &v) {
    if (v.size() <= 40)
      return lit(p, hex(v));
    std::string h = hex(v);
    size_t a = p;
    while (a < s.size() && hexdigit(s[a]))
      a++;
    std::string first = s.substr(p, a - p);
    if (!lit(a, " ... "))
      return false;
    size_t b = a;
    while (b < s.size() && hexdigit(s[b]))
      b++;
    std::string last = s.substr(a, b - a);
    p = b;
    return !first.empty() && !last.empty() && first.size() % 2 == 0 && last.size() % 2 == 0 && h.compare(0, first.size(), first) == 0 &&
           h.compare(h.size() - last.size(), last.size(), last) == 0;
  }
  bool value(size_t &p, const T &t, const P &v) {
    switch (t.k) {
    case BOOL:
      return lit(p, v->i ? "True" : "False");
    case F32:
      return lit(p, fmt("%g", (double)(float)v->d));
    case F64:
      return lit(p, fmt("%g", v->d));
    case U64:
      return lit(p, fmt("%llu", (unsigned long long)v->i));
    case STR:
    case FSTR:
      return lit(p, quoted(v->s));
    case BYTES:
      return v->s.empty() ? lit(p, "NULL") : raw(p, v->s);
    case FBYTES:
      return raw(p, v->s);
    case OPT:
      return v->na ? lit(p, "NA") : value(p, t.sub[0], v->v[0]);
    case FIXED:
    case VAR:
      return list(p, t.sub[0], v->v);
    case TUPLE:
    case STRUCT:
      if (!lit(p, "["))
        return false;
      for (size_t i = 0; i < t.sub.size(); i++) {
        if (i && !lit(p, ","))
          return false;
        ws(p);
        if (!value(p, t.sub[i], v->v[i]))
          return false;
      }
      return lit(p, "]");
    default:
      return lit(p, fmt("%lld", v->i));
    }
  }
  static bool dims(const T &t) {
    for (auto &e : t.sub)
      if (dims(e))
        return true;
    return t.k == FIXED || t.k == VAR;
  }
  // elements k... up to the bracket
  bool rest(size_t &p, const T &e, const std::vector<P> &v, size_t k, bool &lines) {
    for (; k < v.size(); k++) {
      ws(p);
      size_t b = p;
      if (!value(p, e, v[k]))
        return false;
      lines |= s.substr(b, p - b).find('\n') != std::string::npos;
      if (k + 1 < v.size() && !lit(p, ","))
        return false;
    }
    return lit(p, "]");
  }
  bool list(size_t &p, const T &e, const std::vector<P> &v) {
    if (!lit(p, "["))
      return false;
    if (v.empty())
      return lit(p, "]");
    bool lines = false;
    for (size_t i = 0; i < v.size(); i++) {
      ws(p);
      if (i && s.compare(p, 3, "...") == 0) {
        p += 3;
        for (size_t k = i + 1; k < v.size(); k++) {
          size_t q = p;
          Reader r(s);
          bool more = lines;
          for (size_t j = i; j < k; j++)
            more |= leaves(e, v[j]) > 1 && dims(e);
          if (r.rest(q, e, v, k, more)) {
            if (v.size() <= 10 && !more) {
              why = "left out elements of a dimension of " + std::to_string(v.size());
              return false;
            }
            p = q;
            elided = true;
            return true;
          }
        }
        why = "what follows a gap is not the end of the dimension";
        return false;
      }
      size_t b = p;
      if (!value(p, e, v[i]))
        return false;
      lines |= s.substr(b, p - b).find('\n') != std::string::npos;
      if (i + 1 < v.size() ? !lit(p, ",") : !lit(p, "]"))
        return false;
    }
    return true;
  }
};

struct C14 : Scenario {
  struct Slot {
    nd::array a;
    T t;
    P p;
  } shared[NF];
  Gen g;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(4, 16);
    static const int mix[] = {A_PRINT, A_PRINT, A_PRINT, A_VIEW, A_VIEW, A_NEW, A_NEW, A_NEW, A_SPECIAL, A_DEBUG};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void gen(Rng &r, T &t, P &p) {
    Gen h = g;
    h.rich = r.chance(1, 2), h.fbytes = true;
    h.maxdim = r.chance(1, 2) ? 4 : 13;
    h.maxlen = r.chance(1, 3) ? 60 : 12;
    do {
      T e = gen_type(r, h, r.below(3));
      t = e;
      static const int sizes[] = {0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 20, 76, 200};
      int dims = r.below(3);
      for (int i = 0; i < dims; i++) {
        T d;
        d.k = FIXED;
        d.n = r.pick(sizes);
        d.sub.push_back(t);
        t = d;
      }
      p = size(t) <= 1500 ? gen_value(r, h, t) : P();
    } while (!p || leaves(t, p) > 1500);
  }
  static long size(const T &t) {
    long n = 1;
    if (t.k == FIXED)
      return t.n * size(t.sub[0]);
    if (t.k == VAR)
      return 8 * size(t.sub[0]);
    if (t.k == TUPLE || t.k == STRUCT)
      for (auto &e : t.sub)
        n += size(e);
    return n;
  }
  static nd::array make_new(const T &t, const P &p) {
    nd::array a;
    must_do("nd::empty", [&] { a = nd::empty(typed::make(t)); });
    Mode q(M_QUIET);
    fill(a, t, p);
    return a;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Slot &s : shared) {
      gen(r, s.t, s.p);
      nd::array a = make_new(s.t, s.p);
      Mode m(M_QUIET);
      s.a = std::move(a);
    }
  }
  static bool memory() { return rt::op_fired_mask() & (1u << rt::FK_ALLOC | 1u << rt::FK_ALLOC_STICKY | 1u << rt::FK_NATURAL); }
  static std::string plain(const nd::array &a) {
    Sink s(~0ull, false);
    {
      Mode q(M_QUIET);
      std::ostream o(&s);
      o << a;
    }
    return s.got;
  }
  template <class Check> void print(Rng &r, const nd::array &a, Check check) {
    uint32_t arg = rt::op_fault_arg(rt::FK_STREAM);
    bool thr = r.chance(1, 2), exc = r.chance(1, 3);
    Sink s(arg ? (arg - 1) % 4000 : ~0ull, thr);
    bool bad = false;
    Outcome o = attempt([&] {
      std::ostream out(&s);
      if (exc)
        out.exceptions(std::ios::badbit | std::ios::failbit);
      out << a;
      bad = !out;
    });
    bool mem = memory();
    if (o.ok ? s.failed && !bad : !(exc && (s.failed || mem)) && !mem)
      rt::violation("lost-error", "printing to a stream that fails: %s", o.ok ? "the stream is good afterwards" : (o.type + ": " + o.what).c_str());
    if (o.ok && !bad && !mem)
      check(s.got);
    else if (!mem) {
      std::string whole = plain(a);
      if (whole.compare(0, s.got.size(), s.got) != 0)
        rt::violation("wrong-text", "a failing stream got %.300s of %.300s", s.got.c_str(), whole.c_str());
      PROBE("the stream failed");
    } else {
      // streams hide that memory ran out: whatever was written, printing works again
      rt::op_faults_off();
      check(plain(a));
      PROBE("printed again after memory ran out");
    }
  }
  void print(Rng &r, const nd::array &a, const T &t, const P &p) {
    std::string tp = type_str(a.get_type());
    print(r, a, [&](const std::string &got) {
      Reader rd(got);
      size_t at = 0;
      bool ok = rd.lit(at, "array(") && rd.value(at, t, p) && rd.lit(at, ",\n      type=\"" + tp + "\")");
      if (ok && at != got.size())
        ok = false, rd.why = "text behind the end";
      if (!ok)
        rt::violation("wrong-text", "printing an array of type %s: %.150s: %.700s", tp.c_str(), rd.why.c_str(), got.c_str());
      if (rd.elided)
        PROBE("left out the middle");
      if (got.find('\n') != got.rfind('\n'))
        PROBE("several lines");
    });
  }
  // a part of the array
  static void part(Rng &r, nd::array &a, T &t, P &p) {
    for (int depth = r.range(1, 3); depth > 0; depth--) {
      nd::array b;
      if (t.k == FIXED && t.n > 0 && r.chance(1, 2)) {
        int step = r.pickl({1, 2, 3, -1, -2}), n = t.n, start = r.below(n);
        std::vector<P> v;
        must_do("slicing", [&] {
          b = step > 0 ? a(irange(start, n, step)) : a(irange(start, std::numeric_limits<intptr_t>::max(), step));
        });
        for (int i = start; i >= 0 && i < n; i += step)
          v.push_back(p->v[i]);
        P q(new V());
        q->unset = false;
        q->v = v;
        p = q;
        t.n = (int)v.size();
      } else if ((t.k == FIXED || t.k == VAR) && !p->v.empty()) {
        int i = r.below((int)p->v.size());
        must_do("indexing", [&] { b = a(i); });
        T e = t.sub[0];
        t = e;
        p = P(p->v[i]);
      } else if (t.k == TUPLE || t.k == STRUCT) {
        int i = r.below((int)t.sub.size());
        must_do("taking a field", [&] { b = a(i); });
        T e = t.sub[i];
        t = e;
        p = P(p->v[i]);
      } else
        return;
      Mode m(M_SIM);
      a = std::move(b);
    }
  }
  void exec(const Op &o, int) override {
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    Slot &s = shared[r.below(NF)];
    switch (o.kind) {
    case A_PRINT:
      print(r, s.a, s.t, s.p);
      PROBE("printed");
      break;
    case A_VIEW: {
      nd::array a;
      {
        Mode m(M_SIM);
        a = s.a;
      }
      T t = s.t;
      P p = s.p;
      part(r, a, t, p);
      print(r, a, t, p);
      drop(a);
      PROBE("printed a part");
      break;
    }
    case A_NEW: {
      T t;
      P p;
      gen(r, t, p);
      nd::array a = make_new(t, p);
      print(r, a, t, p);
      drop(a);
      break;
    }
    case A_SPECIAL:
      special(r);
      break;
    case A_DEBUG: {
      uint32_t arg = rt::op_fault_arg(rt::FK_STREAM);
      Sink sink(arg ? (arg - 1) % 4000 : ~0ull, false);
      std::string tp = type_str(s.a.get_type());
      Outcome oc = attempt([&] {
        std::ostream out(&sink);
        s.a.debug_print(out);
      });
      if (!oc.ok && !rt::op_fired_mask())
        rt::violation("unexpected-error", "debug_print of an array of type %s: %s: %s", tp.c_str(), oc.type.c_str(), oc.what.c_str());
      if (!rt::op_fired_mask() && sink.got.find("type: " + tp + "\n") == std::string::npos)
        rt::violation("wrong-text", "debug_print of an array of type %s: %s", tp.c_str(), sink.got.c_str());
      PROBE("described");
      break;
    }
    }
  }
  void special(Rng &r) {
    int n = r.chance(1, 6) ? r.range(11, 40) : r.below(8);
    nd::array a;
    std::vector<std::string> want;
    int kind = r.below(4);
    if (kind == 0 && r.chance(1, 3)) {
      print(r, a, [&](const std::string &got) {
        if (got != "array()")
          rt::violation("wrong-text", "printing a null array gives %s", got.c_str());
      });
      return;
    }
    bool wide = r.chance(1, 2);
    static const char *const text[] = {"complex[float64]", "complex[float32]", "type", "char"};
    static const char *const types[] = {"int32", "string", "3 * var * {x: int8}", "(int32) -> float64", "Fixed * Any", "?bool"};
    ndt::type tp;
    must_do("making a type", [&] { tp = ndt::type(std::to_string(n) + " * " + text[kind]); });
    must_do("nd::empty", [&] { a = nd::empty(tp); });
    {
      Mode q(M_QUIET);
      char *d = const_cast<char *>(a.cdata());
      for (int i = 0; i < n; i++) {
        double x = (r.below(4000) - 2000) / 8.0, y = r.chance(1, 4) ? 0 : (r.below(4000) - 2000) / 4.0;
        if (kind == 0)
          reinterpret_cast<dynd::complex<double> *>(d)[i] = dynd::complex<double>(x, y), want.push_back(fmt("(%g + %gj)", x, y));
        else if (kind == 1)
          reinterpret_cast<dynd::complex<float> *>(d)[i] = dynd::complex<float>((float)x, (float)y), want.push_back(fmt("(%g + %gj)", x, y));
        else if (kind == 2) {
          const char *s = r.pick(types);
          reinterpret_cast<ndt::type *>(d)[i] = ndt::type(std::string(s));
          want.push_back(s);
        } else {
          static const uint32_t cps[] = {'a', ' ', '"', '\\', '\n', 1, 0x7f, 0xe9, 0x20ac, 0x1f600, '\'', 0x1f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};
          uint32_t c = wide ? r.pick(cps) : 'a' + r.below(26);
          reinterpret_cast<uint32_t *>(d)[i] = c;
          std::string u;
          if (c < 0x80)
            u += (char)c;
          else if (c < 0x800)
            u += (char)(0xc0 | c >> 6), u += (char)(0x80 | (c & 0x3f));
          else if (c < 0x10000)
            u += (char)(0xe0 | c >> 12), u += (char)(0x80 | (c >> 6 & 0x3f)), u += (char)(0x80 | (c & 0x3f));
          else
            u += (char)(0xf0 | c >> 18), u += (char)(0x80 | (c >> 12 & 0x3f)), u += (char)(0x80 | (c >> 6 & 0x3f)), u += (char)(0x80 | (c & 0x3f));
          want.push_back(quoted(u));
        }
      }
    }
    std::string ts = type_str(tp);
    print(r, a, [&](const std::string &got) {
      std::string flat, all = "array([";
      for (char c : got)
        if (c != '\n' && c != ' ')
          flat += c;
      if (flat.find("...") != std::string::npos && n > 10)
        return;
      for (int i = 0; i < n; i++)
        all += (i ? "," : "") + want[i];
      all += "],type=\"" + ts + "\")";
      std::string w;
      for (char c : all)
        if (c != ' ' && c != '\n')
          w += c;
      if (flat != w)
        rt::violation("wrong-text", "printing %s gives %.500s, has to be %.500s", ts.c_str(), got.c_str(), all.c_str());
    });
    {
      Mode m(M_SIM);
      a = nd::array();
      tp = ndt::type();
    }
    PROBE("special types");
  }
  void end() override {
    for (Slot &s : shared) {
      check_dump("source-changed", "a printed array at the end", s.a, text(s.t, s.p));
      drop(s.a);
    }
  }
};
Tuning tune() {
  Tuning t;
  t.stream = true;
  return t;
}
Register reg("C14", "print", []() -> Scenario * { return new C14; }, tune());
} // namespace
