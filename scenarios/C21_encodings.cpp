// C21: text in every encoding.  Arrays of string, fixed_string (five encodings) and char elements are assigned to each other in
// every checking mode, read, printed, written as JSON and read from it; raw memory may hold anything.  The model decodes and
// encodes code points itself.
#include "dynd_sim.h"
#include <algorithm>
#include <cstring>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/string.hpp>

namespace {
enum { E_NEW, E_ASSIGN, E_SCALAR, E_READ, E_PRINT, E_FORMAT, E_PARSE, E_RAW, NK };
const char *const names[] = {"new", "assign", "assign one text", "read", "print", "format", "parse", "damage"};
enum { NF = 4, NC = 3, NS = 4 };
enum Enc { ASCII, UCS2, UTF8, UTF16, UTF32 };
const char *const enc_name[] = {"ascii", "ucs2", "utf8", "utf16", "utf32"};
const int unit_size[] = {1, 2, 1, 2, 4};
enum Kind { STRING, FIXED, CHAR };
typedef std::vector<uint32_t> Cps;

struct Tp {
  int kind = STRING;
  int enc = UTF8;
  int n = 0;
  int bytes() const { return kind == STRING ? (int)sizeof(dynd::string) : n * unit_size[enc]; }
  std::string ds() const {
    return kind == STRING ? "string" : kind == CHAR ? "char" : "fixed_string[" + std::to_string(n) + ", '" + enc_name[enc] + "']";
  }
};

bool surrogate(uint32_t c) { return c >= 0xd800 && c < 0xe000; }
bool valid(uint32_t c) { return c <= 0x10ffff && !surrogate(c); }
// The code points of raw memory up to the first zero (or the end).  bad: something in it is no text; vague: what a lenient
// reader makes of it depends on where it looks for the next character
struct Text {
  Cps cps;
  bool bad = false, vague = false;
};
Text decode(int enc, const std::string &s, bool stop_at_zero) {
  Text t;
  size_t u = unit_size[enc];
  auto unit = [&](size_t i) {
    uint32_t v = 0;
    memcpy(&v, s.data() + i, u);
    return v;
  };
  for (size_t i = 0; i + u <= s.size();) {
    uint32_t c = unit(i);
    bool bad = false;
    i += u;
    switch (enc) {
    case ASCII:
      bad = c > 0x7f;
      break;
    case UCS2:
      bad = surrogate(c);
      break;
    case UTF32:
      bad = !valid(c);
      break;
    case UTF16:
      if (surrogate(c)) {
        uint32_t d = i + u <= s.size() ? unit(i) : 0;
        if (c < 0xdc00 && d >= 0xdc00 && d < 0xe000)
          c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00), i += u;
        else {
          bad = true;
          t.vague |= c < 0xdc00;
        }
      }
      break;
    case UTF8: {
      int more = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
      if (more < 0) {
        bad = t.vague = true;
        break;
      }
      uint32_t v = more == 0 ? c : c & (0x3f >> more);
      size_t j = i;
      int k = 0;
      for (; k < more && j < s.size() && ((unsigned char)s[j] & 0xc0) == 0x80; k++, j++)
        v = v << 6 | ((unsigned char)s[j] & 0x3f);
      if (k < more || !valid(v) || (more == 2 && v < 0x800) || (more == 3 && v < 0x10000))
        bad = t.vague = true;
      else
        c = v, i = j;
      break;
    }
    }
    if (bad) {
      t.bad = true;
      c = '?';
    } else if (c == 0 && stop_at_zero)
      break;
    t.cps.push_back(c);
  }
  return t;
}
// false if the encoding has no such character
bool encode(int enc, uint32_t c, std::string &o) {
  auto put = [&](uint32_t v, int n) { o.append((const char *)&v, n); };
  switch (enc) {
  case ASCII:
    if (c > 0x7f)
      return false;
    put(c, 1);
    return true;
  case UCS2:
    if (c > 0xffff || surrogate(c))
      return false;
    put(c, 2);
    return true;
  case UTF16:
    if (c < 0x10000)
      put(c, 2);
    else {
      put(0xd800 + ((c - 0x10000) >> 10), 2);
      put(0xdc00 + ((c - 0x10000) & 0x3ff), 2);
    }
    return true;
  case UTF32:
    put(c, 4);
    return true;
  default:
    if (c < 0x80)
      o += (char)c;
    else if (c < 0x800)
      o += (char)(0xc0 | c >> 6), o += (char)(0x80 | (c & 0x3f));
    else if (c < 0x10000)
      o += (char)(0xe0 | c >> 12), o += (char)(0x80 | (c >> 6 & 0x3f)), o += (char)(0x80 | (c & 0x3f));
    else
      o += (char)(0xf0 | c >> 18), o += (char)(0x80 | (c >> 12 & 0x3f)), o += (char)(0x80 | (c >> 6 & 0x3f)), o += (char)(0x80 | (c & 0x3f));
    return true;
  }
}
std::string utf8(const Cps &v) {
  std::string o;
  for (uint32_t c : v)
    encode(UTF8, c, o);
  return o;
}
std::string show_cps(const Cps &v) {
  std::string o = "<";
  for (uint32_t c : v)
    o += fmt(o.size() > 1 ? " %x" : "%x", c);
  return o + ">";
}
// What storing a text gives: refused, or the code points that are there afterwards
struct Stored {
  bool ok = true;
  Cps cps;
};
Stored store(const Tp &d, const Text &t, bool check) {
  Stored r;
  if (t.bad && check) {
    r.ok = false;
    return r;
  }
  size_t room = d.kind == STRING ? ~(size_t)0 : (size_t)d.bytes();
  std::string o;
  for (uint32_t c : t.cps) {
    std::string e;
    if (!encode(d.enc, c, e)) {
      if (check) {
        r.ok = false;
        return r;
      }
      c = '?';
      encode(d.enc, c, e);
    }
    if (o.size() + e.size() > room) {
      r.ok = !check;
      return r;
    }
    o += e;
    r.cps.push_back(c);
  }
  return r;
}
uint32_t any_char(Rng &r, int top) {
  static const uint32_t edge[] = {1, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff};
  for (;;) {
    uint32_t c = r.chance(1, 3) ? r.pick(edge) : r.chance(1, 2) ? 0x61 + r.below(26) : r.chance(1, 2) ? 1 + r.below(0x2ff) : 1 + r.below(0x10fffe);
    if (valid(c) && c <= (uint32_t)top)
      return c;
  }
}
std::string quoted(const Cps &v) {
  std::string o = "\"";
  for (uint32_t c : v)
    switch (c) {
    case '\b': o += "\\b"; break;
    case '\f': o += "\\f"; break;
    case '\n': o += "\\n"; break;
    case '\r': o += "\\r"; break;
    case '\t': o += "\\t"; break;
    case '\\': o += "\\\\"; break;
    case '"': o += "\\\""; break;
    default:
      if (c >= 0x20 && c < 0x7f)
        o += (char)c;
      else
        o += fmt(c < 0x10000 ? "\\u%04x" : "\\U%08x", c);
    }
  return o + "\"";
}

struct C21 : Scenario {
  struct Cell {
    Tp t;
    nd::array whole, a; // a: the texts; whole: the records that hold them, if rec
    bool live = false, rec = false;
    std::vector<std::string> raw; // the bytes of each text
    char *base = nullptr;
    intptr_t step = 0;
  } cell[NF][NC], shared[NS];

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 24);
    static const int mix[] = {E_NEW, E_NEW, E_ASSIGN, E_ASSIGN, E_ASSIGN, E_ASSIGN, E_ASSIGN, E_ASSIGN, E_SCALAR, E_READ, E_PRINT, E_FORMAT, E_PARSE, E_PARSE, E_RAW};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(30000), r.below(30000));
    p.params[0] = r.below(30000);
    p.params[1] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s r=%d,%d", names[o.kind % NK], o.a[0], o.a[1]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  static Tp gen_type(Rng &r) {
    Tp t;
    t.kind = r.pickl({STRING, STRING, FIXED, FIXED, FIXED, FIXED, FIXED, CHAR});
    if (t.kind == FIXED)
      t.enc = r.below(5), t.n = r.chance(1, 6) ? r.range(20, 70) : r.range(1, 9);
    if (t.kind == CHAR)
      t.enc = UTF32, t.n = 1;
    return t;
  }
  static Cps gen_text(Rng &r, const Tp &t) {
    Cps v;
    int top = r.chance(1, 3) ? 0x10ffff : r.chance(1, 2) ? 0x7e : r.chance(1, 2) ? 0xffff : 0x7ff;
    if (t.enc == ASCII)
      top = 0x7f;
    if (t.enc == UCS2)
      top = std::min(top, 0xffff);
    bool wide = top > 0xfff && r.chance(1, 3);
    int n = t.kind == CHAR ? 1 : r.chance(1, 10) ? r.below(70) : t.n > 9 && r.chance(1, 2) ? r.range(10, t.n) : r.below(9);
    std::string o;
    for (int i = 0; i < n; i++) {
      uint32_t c = wide ? (top > 0xffff && r.chance(1, 2) ? 0x10000 : 0x800) + r.below(0xcfff) : any_char(r, top);
      std::string e;
      encode(t.enc, c, e);
      if (t.kind != STRING && o.size() + e.size() > (size_t)t.bytes())
        break;
      o += e;
      v.push_back(c);
    }
    return v;
  }
  // puts bytes into element i, and remembers them
  static void poke(Cell &c, size_t i, std::string s) {
    char *p = c.base + c.step * (intptr_t)i;
    if (c.t.kind == STRING) {
      Mode q(M_QUIET);
      reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
    } else {
      s.resize(c.t.bytes());
      Mode h(M_HOST);
      memcpy(p, s.data(), s.size());
    }
    c.raw[i] = s;
  }
  static std::string peek(const Cell &c, size_t i) {
    const char *p = c.base + c.step * (intptr_t)i;
    if (c.t.kind != STRING)
      return std::string(p, c.t.bytes());
    auto s = reinterpret_cast<const dynd::string *>(p);
    return std::string(s->begin(), s->end() - s->begin());
  }
  static Text text_of(const Tp &t, const std::string &raw) { return decode(t.enc, raw, t.kind != STRING); }

  static void build(Rng &r, Cell &c, int n) {
    c.t = gen_type(r);
    c.rec = r.chance(1, 3);
    std::string ds = std::to_string(n) + " * " + (c.rec ? "{lo: int8, text: " + c.t.ds() + ", hi: int8}" : c.t.ds());
    must_do("nd::empty", [&] { c.whole = nd::empty(ndt::type(ds)); });
    if (c.rec)
      must_do("taking a field", [&] { c.a = c.whole(irange(), 1); });
    else {
      Mode m(M_SIM);
      c.a = c.whole;
    }
    Mode q(M_QUIET);
    c.base = const_cast<char *>(c.a.cdata());
    c.step = n > 1 ? c.a.get_strides()[0] : 0;
    Mode h(M_HOST);
    if (c.rec)
      for (int i = 0; i < n; i++)
        guard(c, i)[0] = 0x5a, guard(c, i)[1] = 0x5b;
    c.raw.assign(n, "");
    for (int i = 0; i < n; i++) {
      std::string s;
      for (uint32_t x : gen_text(r, c.t))
        encode(c.t.enc, x, s);
      poke(c, i, s);
    }
    c.live = true;
  }
  // the two bytes around element i: remembered as one pair
  struct Guard {
    char *lo, *hi;
    char &operator[](int k) { return k ? *hi : *lo; }
  };
  static Guard guard(const Cell &c, size_t i) {
    const uintptr_t *off;
    Mode q(M_QUIET);
    nd::array e = c.whole((intptr_t)i);
    off = reinterpret_cast<const uintptr_t *>(e->metadata());
    Guard g;
    g.lo = const_cast<char *>(e.cdata()) + off[0];
    g.hi = const_cast<char *>(e.cdata()) + off[2];
    e = nd::array();
    return g;
  }
  static void clear(Cell &c) {
    if (!c.live)
      return;
    Mode m(M_SIM);
    c.a = nd::array();
    c.whole = nd::array();
    rt::set_mode(M_HOST);
    c.raw.clear();
    c.live = false;
  }
  static void verify(const char *what, Cell &c) {
    if (!c.live)
      return;
    for (size_t i = 0; i < c.raw.size(); i++) {
      std::string s = peek(c, i);
      if (s != c.raw[i])
        rt::violation("wrong-contents", "%s of %s: element %d is %s, has to be %s", what, c.t.ds().c_str(), (int)i, show_cps(text_of(c.t, s).cps).c_str(),
                      show_cps(text_of(c.t, c.raw[i]).cps).c_str());
      if (c.rec) {
        Guard g = guard(c, i);
        if (g[0] != 0x5a || g[1] != 0x5b)
          rt::violation("wrong-contents", "%s of %s: what is beside element %d has changed", what, c.t.ds().c_str(), (int)i);
      }
    }
  }
  void begin(const Plan &p) override {
    for (auto &row : cell)
      for (Cell &c : row)
        c.live = false;
    Rng r(((uint64_t)(unsigned short)p.params[0] << 16) ^ (unsigned short)p.params[1]);
    for (Cell &c : shared) {
      build(r, c, r.range(1, 5));
      if (r.chance(1, 4))
        damage(r, c);
    }
  }
  static bool memory() { return rt::op_fired_mask() & (1u << rt::FK_ALLOC | 1u << rt::FK_ALLOC_STICKY | 1u << rt::FK_NATURAL); }
  static void damage(Rng &r, Cell &c) {
    for (int k = r.range(1, 3); k > 0; k--) {
      size_t i = r.below((int)c.raw.size());
      std::string s = c.raw[i];
      if (s.empty())
        s = "a";
      int at = r.below((int)s.size());
      switch (r.below(4)) {
      case 0:
        s[at] = (char)r.below(256);
        break;
      case 1:
        s[at] ^= (char)(1 << r.below(8));
        break;
      case 2: {
        static const uint32_t units[] = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0xc0, 0xe0, 0xf0, 0xf5, 0x80, 0xff, 0xffffffff};
        uint32_t u = r.pick(units);
        int w = unit_size[c.t.enc];
        at = at / w * w;
        for (int b = 0; b < w && at + b < (int)s.size(); b++)
          s[at + b] = (char)(u >> (8 * b));
        break;
      }
      default:
        if (c.t.kind == STRING)
          s.resize(at);
        else
          std::fill(s.begin() + at, s.end(), '\0');
      }
      if (c.t.kind == STRING)
        for (char &ch : s)
          if (!ch)
            ch = 'z';
      poke(c, i, s);
    }
  }
  struct Part {
    int start = 0, step = 1, n = 0;
    bool scalar = false;
    nd::array a;
    size_t at(int i) const { return (size_t)(scalar ? start : start + step * i); }
  };
  static void part(Rng &r, Cell &c, Part &p, int want) {
    int n = (int)c.raw.size();
    p.n = want < 0 ? r.range(1, n) : want;
    if (p.n == 1 && r.chance(1, 2)) {
      p.scalar = true;
      p.start = r.below(n);
      must_do("indexing", [&] { p.a = c.a(p.start); });
      return;
    }
    p.step = p.n * 2 - 1 <= n && r.chance(1, 2) ? 2 : 1;
    int span = (p.n - 1) * p.step + 1;
    int lo = r.range(0, n - span);
    if (r.chance(1, 3)) {
      p.start = lo + span - 1;
      p.step = -p.step;
      must_do("slicing", [&] { p.a = lo == 0 ? c.a(irange(p.start, std::numeric_limits<intptr_t>::max(), p.step)) : c.a(irange(p.start, lo - 1, p.step)); });
      Mode q(M_QUIET);
      p.n = (int)p.a.get_dim_size();
    } else {
      p.start = lo;
      must_do("slicing", [&] { p.a = c.a(irange(lo, lo + span, p.step)); });
    }
  }
  // the target after an assignment of `src` (one per element, or one for all) in which something may have failed
  static void settle(const char *what, Cell &d, const Part &dp, const std::vector<Text> &src, bool check, const Outcome &o, bool mem) {
    bool must_fail = false;
    for (int i = 0; i < dp.n; i++)
      must_fail |= !store(d.t, src[src.size() == 1 ? 0 : i], check).ok;
    if (o.ok && must_fail)
      rt::violation("lost-error", "%s to %s did not refuse a text that cannot be stored", what, d.t.ds().c_str());
    if (!o.ok && !must_fail && !mem)
      rt::violation("refused-valid", "%s to %s: %s: %s", what, d.t.ds().c_str(), o.type.c_str(), o.what.substr(0, 200).c_str());
    for (int i = 0; i < dp.n; i++) {
      const Text &t = src[src.size() == 1 ? 0 : i];
      Stored st = store(d.t, t, check);
      size_t at = dp.at(i);
      std::string got = peek(d, at);
      Text now = text_of(d.t, got);
      if (o.ok || st.ok) {
        bool fresh = t.vague && !check ? !now.bad : !now.bad && now.cps == st.cps;
        bool old = !o.ok && (got == d.raw[at] || mem);
        if (!fresh && !old)
          rt::violation("wrong-text", "%s to %s: element %d is %s%s, has to be %s", what, d.t.ds().c_str(), (int)at, show_cps(now.cps).c_str(), now.bad ? " (damaged)" : "",
                        show_cps(st.cps).c_str());
      }
      if (!o.ok) {
        // what a refused text leaves behind is memory of the target, whatever it holds
        poke(d, at, d.t.kind == STRING ? "" : got);
      } else
        d.raw[at] = got;
    }
    if (must_fail)
      PROBE("refused");
  }
  static void assign(Rng &r, const char *what, Cell &d, Part &dp, const nd::array &src, const std::vector<Text> &texts) {
    static const assign_error_mode modes[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact, assign_error_default};
    assign_error_mode m = r.pick(modes);
    for (int round = 0;; round++) {
      Outcome o = attempt([&] { dp.a.assign(src, m); });
      bool mem = memory();
      settle(what, d, dp, texts, m != assign_error_nocheck, o, mem);
      if (o.ok || !mem || round)
        break;
      rt::op_faults_off();
      PROBE("again after memory ran out");
    }
    if (m == assign_error_nocheck)
      PROBE("unchecked");
  }
  void exec(const Op &o, int f) override {
    (void)f;
    Rng r(((uint64_t)(unsigned short)o.a[0] << 16) ^ (unsigned short)o.a[1]);
    auto &own = cell[o.fiber - 1];
    Cell &d = own[r.below(NC)];
    if (o.kind == E_NEW || !d.live) {
      clear(d);
      build(r, d, r.range(1, 5));
      if (o.kind == E_NEW)
        return;
    }
    Cell *s = &shared[r.below(NS)];
    if (r.chance(1, 3) && own[(&d - own + 1) % NC].live)
      s = &own[(&d - own + 1) % NC];
    switch (o.kind) {
    case E_ASSIGN: {
      bool ok = (s->t.kind != CHAR && d.t.kind != CHAR) || (s->t.kind == CHAR && d.t.kind == STRING) || (s->t.kind == STRING && d.t.kind == CHAR);
      Part dp, sp;
      int n = std::min((int)s->raw.size(), (int)d.raw.size());
      n = r.range(1, n);
      bool one = r.chance(1, 4);
      part(r, *s, sp, one ? 1 : n);
      part(r, d, dp, one ? r.range(1, (int)d.raw.size()) : n);
      if (!ok || (dp.scalar && !sp.scalar)) {
        Outcome oc = attempt([&] { dp.a.assign(sp.a); });
        if (oc.ok && !ok)
          rt::violation("lost-error", "assigning %s to %s is possible", s->t.ds().c_str(), d.t.ds().c_str());
        if (!ok) {
          drop(dp.a);
          drop(sp.a);
          PROBE("types refused");
          break;
        }
        // an array of one text to a text: refused, or done
        if (oc.ok)
          d.raw[dp.at(0)] = peek(d, dp.at(0));
        else
          poke(d, dp.at(0), "");
        drop(dp.a);
        drop(sp.a);
        break;
      }
      std::vector<Text> texts;
      for (int i = 0; i < sp.n; i++) {
        texts.push_back(text_of(s->t, s->raw[sp.at(i)]));
        if (s->t.kind == STRING && d.t.kind == STRING) // copied as it is
          texts.back().vague = texts.back().bad = false;
      }
      if (s->t.kind == STRING && d.t.kind == STRING) {
        copy_strings(d, dp, *s, sp);
      } else {
        assign(r, ("assigning " + s->t.ds()).c_str(), d, dp, sp.a, texts);
        if (s->t.enc != d.t.enc)
          PROBE("another encoding");
        if (sp.n == 1 && dp.n > 1)
          PROBE("one text for all");
        for (auto &t : texts)
          if (t.bad)
            PROBE("damaged text");
      }
      drop(dp.a);
      drop(sp.a);
      break;
    }
    case E_SCALAR: {
      Tp st;
      Cps v = gen_text(r, st);
      if (r.chance(1, 2))
        v = gen_text(r, d.t);
      std::string u = utf8(v);
      Part dp;
      part(r, d, dp, -1);
      nd::array x;
      must_do("an array of a std::string", [&] { x = nd::array(u); });
      Text t;
      t.cps = v;
      assign(r, "assigning a std::string", d, dp, x, {t});
      drop(x);
      drop(dp.a);
      break;
    }
    case E_READ: {
      Part p;
      part(r, *s, p, 1);
      if (!p.scalar)
        must_do("indexing", [&] { p.a = p.a(0); });
      Text t = text_of(s->t, s->raw[p.at(0)]);
      if (s->t.kind != STRING || !t.bad)
        for (int round = 0;; round++) {
          std::string got;
          Outcome oc = attempt([&] {
            std::string g = p.a.as<std::string>();
            rt::set_mode(M_HOST);
            got = g;
            rt::set_mode(M_SIM);
          });
          bool mem = memory();
          if (oc.ok ? t.bad : !t.bad && !mem)
            rt::violation(oc.ok ? "lost-error" : "refused-valid", "reading %s as std::string: %s", s->t.ds().c_str(), oc.ok ? "a damaged text is not refused" : oc.what.c_str());
          if (oc.ok && got != utf8(t.cps))
            rt::violation("wrong-text", "%s as std::string gives %s, has to be %s", s->t.ds().c_str(), show_cps(decode(UTF8, got, false).cps).c_str(), show_cps(t.cps).c_str());
          if (oc.ok || !mem || round)
            break;
          rt::op_faults_off();
        }
      drop(p.a);
      PROBE("read");
      break;
    }
    case E_PRINT: {
      Part p;
      part(r, *s, p, -1);
      std::string got;
      for (int round = 0;; round++) {
        Outcome oc = attempt([&] {
          std::ostringstream out;
          out << p.a;
          rt::set_mode(M_HOST);
          got = out.str();
          rt::set_mode(M_SIM);
        });
        if (!oc.ok && !memory())
          rt::violation("unexpected-error", "printing %s: %s", s->t.ds().c_str(), oc.what.c_str());
        if (!memory() || round)
          break;
        rt::op_faults_off(); // a stream hides that memory ran out
      }
      size_t at = 0;
      bool all = true;
      for (int i = 0; i < p.n && all; i++) {
        Text t = text_of(s->t, s->raw[p.at(i)]);
        if (t.vague) {
          all = false;
          break;
        }
        std::string q = s->t.kind == CHAR && t.cps.empty() ? "" : quoted(t.cps);
        size_t x = got.find(q, at);
        if (x == std::string::npos)
          rt::violation("wrong-text", "printing %s: element %d, %s, is not in %s", s->t.ds().c_str(), (int)p.at(i), quoted(t.cps).c_str(), got.substr(0, 400).c_str());
        at = x + q.size();
      }
      drop(p.a);
      PROBE("printed");
      break;
    }
    case E_FORMAT: {
      if (s->t.kind == CHAR)
        break;
      Part p;
      part(r, *s, p, -1);
      nd::array js;
      bool bad = false, vague = false;
      for (int i = 0; i < p.n; i++) {
        Text t = text_of(s->t, s->raw[p.at(i)]);
        bad |= t.bad, vague |= t.vague;
      }
      for (int round = 0;; round++) {
        Outcome oc = attempt([&] { js = format_json(p.a); });
        if (!oc.ok && !memory() && !bad)
          rt::violation("refused-valid", "formatting %s as JSON: %s", s->t.ds().c_str(), oc.what.c_str());
        if (oc.ok || !memory() || round)
          break;
        rt::op_faults_off();
      }
      if (!js.is_null() && !bad) {
        nd::array back;
        Tp st;
        std::string ds = p.scalar ? "string" : std::to_string(p.n) + " * string";
        std::string text;
        {
          Mode q(M_QUIET);
          auto x = reinterpret_cast<const dynd::string *>(js.cdata());
          rt::set_mode(M_HOST);
          text.assign(x->begin(), x->end());
        }
        rt::op_faults_off();
        must_do("reading the JSON back", [&] { back = parse_json(ndt::type(ds), text.c_str()); });
        for (int i = 0; i < p.n; i++) {
          const dynd::string *x = reinterpret_cast<const dynd::string *>(back.cdata()) + i;
          std::string got(x->begin(), x->end()), want = utf8(text_of(s->t, s->raw[p.at(i)]).cps);
          if (got != want)
            rt::violation("wrong-text", "%s as JSON is %s, read back as %s", s->t.ds().c_str(), text.substr(0, 300).c_str(), got.c_str());
        }
        drop(back);
        PROBE("written as JSON and back");
      }
      drop(js);
      drop(p.a);
      break;
    }
    case E_PARSE: {
      static const eval::eval_context lax = [] {
        eval::eval_context c;
        c.errmode = assign_error_nocheck;
        return c;
      }();
      if (d.t.kind == CHAR)
        break;
      clear(d);
      int n = r.range(1, 4);
      Tp t = gen_type(r);
      if (t.kind == CHAR)
        t = Tp();
      std::vector<Cps> v, want;
      std::string js = "[";
      bool ok = true, check = !r.chance(1, 4);
      for (int i = 0; i < n; i++) {
        v.push_back(gen_text(r, r.chance(1, 6) ? Tp() : t));
        Text x;
        x.cps = v.back();
        Stored st = store(t, x, check);
        ok &= st.ok;
        want.push_back(st.cps);
        js += i ? ",\"" : "\"";
        for (uint32_t c : v.back())
          if (c < 0x20 || c == '"' || c == '\\' || (c < 0x10000 && r.chance(1, 4)))
            js += fmt("\\u%04x", c);
          else if (c >= 0x10000 && r.chance(1, 2))
            js += r.chance(1, 2) ? fmt("\\U%08X", c) : fmt("\\u%04X\\u%04x", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff));
          else
            encode(UTF8, c, js);
        js += "\"";
      }
      js += "]";
      std::string ds = std::to_string(n) + " * " + t.ds();
      nd::array x;
      for (int round = 0;; round++) {
        Outcome oc = attempt([&] { x = parse_json(ndt::type(ds), js.c_str(), check ? &eval::default_eval_context : &lax); });
        bool mem = memory();
        if (oc.ok ? !ok : ok && !mem)
          rt::violation(oc.ok ? "lost-error" : "refused-valid", "parsing %s as %s: %s", js.c_str(), ds.c_str(), oc.ok ? "not refused" : oc.what.c_str());
        if (oc.ok || !mem || round)
          break;
        rt::op_faults_off();
      }
      if (x.is_null())
        break;
      {
        Mode q(M_SIM);
        d.whole = x;
        d.a = std::move(x);
      }
      d.t = t;
      d.rec = false;
      d.live = true;
      {
        Mode q(M_QUIET);
        d.base = const_cast<char *>(d.a.cdata());
        d.step = n > 1 ? d.a.get_strides()[0] : 0;
      }
      d.raw.assign(n, "");
      for (int i = 0; i < n; i++) {
        d.raw[i] = peek(d, i);
        Text now = text_of(t, d.raw[i]);
        if (now.bad || now.cps != want[i])
          rt::violation("wrong-text", "parsing %s as %s: element %d is %s", js.c_str(), ds.c_str(), i, show_cps(now.cps).c_str());
      }
      PROBE("parsed");
      if (!check)
        PROBE("parsed unchecked");
      break;
    }
    case E_RAW:
      damage(r, d);
      break;
    }
    for (Cell &c : own)
      verify("an array", c);
    for (Cell &c : shared)
      verify("a shared array", c);
  }
  static void copy_strings(Cell &d, Part &dp, const Cell &s, const Part &sp) {
    for (int round = 0;; round++) {
      Outcome o = attempt([&] { dp.a.assign(sp.a); });
      bool mem = memory();
      bool bad = false;
      for (int i = 0; i < sp.n; i++)
        bad |= text_of(s.t, s.raw[sp.at(i)]).bad;
      if (!o.ok && !mem && !bad)
        rt::violation("refused-valid", "assigning strings: %s", o.what.c_str());
      for (int i = 0; i < dp.n; i++) {
        std::string got = peek(d, dp.at(i)), want = s.raw[sp.at(sp.n == 1 ? 0 : i)];
        if (got != want && (o.ok || got != d.raw[dp.at(i)]))
          rt::violation("wrong-text", "assigning a string to a string gives another one");
        d.raw[dp.at(i)] = got;
      }
      if (o.ok || !mem || round)
        break;
      rt::op_faults_off();
    }
    PROBE("string to string");
  }
  void end() override {
    for (auto &row : cell)
      for (Cell &c : row) {
        verify("an array at the end", c);
        clear(c);
      }
    for (Cell &c : shared) {
      verify("a shared array at the end", c);
      clear(c);
    }
  }
};
Register reg("C21", "encodings", []() -> Scenario * { return new C21; }, Tuning());
} // namespace
