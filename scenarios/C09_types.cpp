// C09: datashape text in, types out, and back.  A reference reader written from the grammar decides for every text, also
// for truncated and corrupted ones, whether it denotes a type and which; the canonical text of the model identifies a type.
#include "dshape.h"
using namespace dshape;

namespace {
// ---- the reference reader -------------------------------------------------------------------------------------------
struct Bad {};
struct Unknown {};
bool upper(char c) { return c >= 'A' && c <= 'Z'; }
struct Ref {
  const char *b, *e;
  int depth = 0;
  void ws() {
    for (;;) {
      while (b < e && (*b == ' ' || (*b >= 9 && *b <= 13)))
        b++;
      if (b == e || *b != '#')
        return;
      while (b < e && *b != '\n')
        b++;
    }
  }
  bool lit(const char *t) { // no whitespace
    size_t n = strlen(t);
    if ((size_t)(e - b) < n || memcmp(b, t, n))
      return false;
    b += n;
    return true;
  }
  bool tok(const char *t) {
    const char *s = b;
    ws();
    if (lit(t))
      return true;
    b = s;
    return false;
  }
  void need(const char *t) {
    if (!tok(t))
      throw Bad();
  }
  bool name(std::string &o) {
    if (b == e || !((*b >= 'a' && *b <= 'z') || upper(*b) || *b == '_'))
      return false;
    const char *s = b;
    while (b < e && ((*b >= 'a' && *b <= 'z') || upper(*b) || *b == '_' || (*b >= '0' && *b <= '9')))
      b++;
    o.assign(s, b);
    return true;
  }
  bool number(std::string &o) {
    if (b == e || *b < '0' || *b > '9' || (*b == '0' && b + 1 < e && b[1] >= '0' && b[1] <= '9'))
      return false;
    const char *s = b;
    while (b < e && *b >= '0' && *b <= '9')
      b++;
    o.assign(s, b);
    return true;
  }
  static long small(const std::string &s, size_t digits = 5) {
    if (s.size() > digits)
      throw Unknown(); // sizes near the limits of the address space
    return atol(s.c_str());
  }
  static void utf8(std::string &o, uint32_t c) {
    if ((c >= 0xd800 && c < 0xe000) || c > 0x10ffff)
      throw Unknown();
    if (c < 0x80)
      o += (char)c;
    else if (c < 0x800)
      o += (char)(0xc0 | c >> 6), o += (char)(0x80 | (c & 63));
    else if (c < 0x10000)
      o += (char)(0xe0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    else
      o += (char)(0xf0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
  }
  bool str(std::string &o) {
    const char *s = b;
    ws();
    if (b == e || (*b != '\'' && *b != '"')) {
      b = s;
      return false;
    }
    char q = *b++;
    o.clear();
    for (;;) {
      if (b == e)
        throw Bad();
      char c = *b++;
      if (c == q)
        break;
      if ((unsigned char)c >= 0x80)
        throw Unknown(); // raw bytes: generated texts escape them
      if (c != '\\') {
        o += c;
        continue;
      }
      if (b == e)
        throw Bad();
      c = *b++;
      int n = 0;
      switch (c) {
      case '"':
      case '\'':
      case '\\':
      case '/':
        o += c;
        break;
      case 'b':
        o += '\b';
        break;
      case 'f':
        o += '\f';
        break;
      case 'n':
        o += '\n';
        break;
      case 'r':
        o += '\r';
        break;
      case 't':
        o += '\t';
        break;
      case 'u':
        n = 4;
        break;
      case 'U':
        n = 8;
        break;
      default:
        throw Bad();
      }
      if (n) {
        uint32_t v = 0;
        if (e - b < n)
          throw Bad();
        for (; n; n--, b++) {
          char d = *b;
          if (d >= '0' && d <= '9')
            v = v * 16 + (d - '0');
          else if ((d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F'))
            v = v * 16 + ((d | 32) - 'a' + 10);
          else
            throw Bad();
        }
        utf8(o, v);
      }
    }
    return true;
  }
  static std::string encoding(const std::string &s) {
    static const char *const l[][5] = {{"ascii", "A", "ascii", "us-ascii", "ascii"}, {"utf8", "U8", "utf8", "utf-8", "utf_8"}, {"utf16", "U16", "utf16", "utf-16", "utf_16"},
                                       {"utf32", "U32", "utf32", "utf-32", "utf_32"}, {"ucs2", "ucs2", "ucs-2", "ucs_2", "ucs2"}};
    for (auto &r : l)
      for (int i = 1; i < 5; i++)
        if (s == r[i])
          return r[0];
    throw Bad();
  }
  // one dimension of the kind that `base` spells
  D base_dim(const std::string &base, D el) {
    if (base[0] >= '0' && base[0] <= '9')
      return dim(FIXEDN, std::move(el), small(base));
    if (base == "var")
      return dim(VAR, std::move(el));
    if (base == "Fixed")
      return dim(FIXED, std::move(el));
    if (upper(base[0])) {
      if (registered(base))
        throw Unknown();
      return dim(TVDIM, std::move(el), 0, base);
    }
    throw Bad();
  }
  D type() {
    if (++depth > 60)
      throw Unknown();
    ws();
    D d;
    if (lit("?")) {
      D v = nooption();
      if (v.k == OPT)
        throw Unknown();
      d = dim(OPT, v);
    } else
      d = nooption();
    depth--;
    return d;
  }
  D nooption() {
    ws();
    std::string n, x;
    if (name(n) || number(n)) {
      if (tok("**")) {
        if (!name(x) && !number(x)) {
          if (b < e && (*b == ' ' || (*b >= 9 && *b <= 13) || *b == '#'))
            throw Unknown();
          throw Bad();
        }
        bool num = x[0] >= '1' && x[0] <= '9';
        if (!num && !upper(x[0]))
          throw Bad();
        need("*");
        D el = type();
        if (num) {
          long k = small(x, 9);
          D d = base_dim(n, el);
          if (k > 1024)
            throw Bad();
          if (k > 40)
            throw Unknown();
          for (long i = 1; i < k; i++) {
            D one = d;
            one.sub[0] = d;
            d = one;
          }
          return d;
        }
        D d = base_dim(n, el);
        d.k = POW;
        d.name = n[0] >= '0' && n[0] <= '9' ? "" : n;
        d.exp = x;
        return d;
      }
      if (tok("*")) {
        D el = type();
        if (n[0] >= '0' && n[0] <= '9')
          return dim(FIXEDN, el, small(n));
        if (n == "Dim")
          return dim(DIM, el);
        if (n == "var" || n == "Fixed")
          return base_dim(n, el);
        if (registered(n) || !upper(n[0]))
          throw Bad();
        return dim(TVDIM, el, 0, n);
      }
      if (tok("...")) {
        need("*");
        D el = type();
        if (!upper(n[0]))
          throw Bad();
        return dim(ELL, el, 0, n);
      }
      if (n == "complex") {
        if (!tok("["))
          return named(NAME, "complex[float64]");
        D t = type();
        need("]");
        if (t.k != NAME || (t.name != "float32" && t.name != "float64"))
          throw Bad();
        return named(NAME, "complex[" + t.name + "]");
      }
      if (n == "State")
        return named(NAME, n);
      static const char *const alias[][2] = {{"int", "int32"}, {"intptr", "int64"}, {"uintptr", "uint64"}, {"size", "uint64"}, {"real", "float64"}, {"complex64", "complex[float32]"}, {"complex128", "complex[float64]"}};
      for (auto &a : alias)
        if (n == a[0])
          return named(NAME, a[1]);
      const char *s = b;
      if (registered(n)) {
        if (!tok("[")) {
          if (in(needs_args, n))
            throw Bad();
          return named(NAME, n);
        }
        if (n == "option" || n == "pointer") {
          D t = type();
          need("]");
          if (n == "option" && t.k == OPT)
            throw Unknown();
          return dim(n == "option" ? OPT : PTR, t);
        }
        if (n == "fixed_string") {
          D d = named(FSTR, "utf8");
          ws();
          if (!number(x))
            throw Bad();
          d.n = small(x);
          if (!d.n)
            throw Bad();
          if (tok(",")) {
            if (!str(x))
              throw Bad();
            d.name = encoding(x);
          }
          need("]");
          return d;
        }
        if (n == "fixed_bytes" || n == "bytes") {
          D d;
          d.k = n == "bytes" ? BYTES : FBYTES;
          if (d.k == FBYTES) {
            ws();
            if (!number(x))
              throw Bad();
            d.n = small(x);
          }
          if (d.k == BYTES || tok(",")) {
            need("align");
            need("=");
            ws();
            if (!number(x))
              throw Bad();
            d.m = small(x);
          }
          need("]");
          if (d.m != 1 && d.m != 2 && d.m != 4 && d.m != 8 && d.m != 16)
            throw Bad();
          if (d.k == FBYTES && (d.n < d.m || d.n % d.m))
            throw Bad();
          return d;
        }
        if (n == "char") {
          if (!str(x))
            throw Bad();
          x = encoding(x);
          need("]");
          if (x == "utf8" || x == "utf16")
            throw Bad();
          return named(CHAR, x);
        }
        if (n == "fixed") {
          ws();
          if (!number(x))
            throw Bad();
          need("]");
          need("*");
          D el = type();
          return dim(FIXEDN, el, small(x));
        }
        if (n.compare(0, 4, "cuda") == 0)
          throw Unknown();
        throw Bad();
      }
      b = s;
      if (!upper(n[0]))
        throw Bad();
      if (!tok("["))
        return named(TV, n);
      D t = type();
      need("]");
      return dim(TVC, t, 0, n);
    }
    if (lit("...")) {
      need("*");
      return dim(ELL, type());
    }
    D d;
    if (tok("{")) {
      d.k = STRUCT;
      if (tok("}"))
        return d;
      for (;;) {
        if (tok("...")) {
          need("}");
          d.variadic = true;
          break;
        }
        item(d, true);
        if (tok(",")) {
          if (tok("}"))
            break;
        } else {
          need("}");
          break;
        }
      }
      distinct(d.names);
      return d;
    }
    if (!tok("("))
      throw Bad();
    d.k = TUPLE;
    bool kw = false;
    if (!tok(")"))
      for (;;) {
        const char *s = b;
        bool dots = tok("...") && tok(",");
        if (!dots)
          b = s;
        const char *k = b;
        ws();
        if (name(n) && tok(":")) {
          d.variadic = dots;
          b = k;
          kw = true;
          for (;;) {
            if (tok("...")) {
              need(")");
              d.kwvariadic = true;
              break;
            }
            item(d, false);
            if (tok(",")) {
              if (tok(")"))
                break;
            } else {
              need(")");
              break;
            }
          }
          break;
        }
        b = s;
        if (tok("...") && tok(")")) {
          d.variadic = true;
          break;
        }
        b = s;
        d.sub.push_back(type());
        if (tok(",")) {
          if (tok(")"))
            break;
        } else {
          need(")");
          break;
        }
      }
    distinct(d.names);
    if (!tok("->")) {
      if (kw)
        throw Bad();
      return d;
    }
    D ret = type();
    d.npos = (int)d.sub.size() - (int)d.names.size();
    d.k = CALL;
    d.sub.insert(d.sub.begin(), ret);
    return d;
  }
  void distinct(const std::vector<std::string> &l) {
    std::set<std::string> s(l.begin(), l.end());
    if (s.size() != l.size())
      throw Unknown();
  }
  void item(D &d, bool quotes) {
    std::string n;
    ws();
    if (!name(n) && !(quotes && str(n)))
      throw Bad();
    need(":");
    D t = type();
    d.names.push_back(n);
    d.sub.push_back(t);
  }
  D stmt(std::set<std::string> &defined) {
    ws();
    if (!lit("type"))
      return type();
    if (b == e)
      return named(NAME, "type");
    if (!(*b == ' ' || (*b >= 9 && *b <= 13)))
      throw Bad();
    while (b < e && (*b == ' ' || (*b >= 9 && *b <= 13)))
      b++;
    std::string n;
    if (!name(n)) {
      ws();
      if (b == e)
        return named(NAME, "type");
      throw Bad();
    }
    need("=");
    D d = type();
    if (registered(n) || !defined.insert(n).second)
      throw Bad();
    return d;
  }
  D top() {
    std::set<std::string> defined;
    D d = stmt(defined);
    for (;;) {
      ws();
      if (b == e)
        return d;
      d = stmt(defined);
    }
  }
};
enum Verdict { OK, BAD, UNKNOWN };
Verdict judge(const std::string &s, D &out) {
  Ref r{s.data(), s.data() + s.size()};
  try {
    out = r.top();
    return OK;
  } catch (Bad &) {
    return BAD;
  } catch (Unknown &) {
    return UNKNOWN;
  }
}

// ---- types and their spellings ----------------------------------------------------------------------------------------
const char *const tvs[] = {"T", "M", "N", "Tx_1", "Kind", "AVeryLongTypeVariableName", "R0"};
const char *const fieldnames[] = {"x", "y", "z", "_q", "a1", "int32", "var", "type", "Fixed", "a rather long field name", "it's", "", "\"", "back\\slash", "tab\t", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01\x7f", "3d", "a-b", "x/y"};
D gen(Rng &r, int depth, bool nopt = false) {
  D d;
  int h = depth <= 0 ? r.below(7) : r.below(24);
  static const char *const encs[] = {"utf8", "ascii", "utf16", "utf32", "ucs2"};
  switch (h) {
  default:
    d.name = r.pick(builtins);
    break;
  case 2:
    d.k = r.chance(1, 2) ? TV : NAME;
    d.name = d.k == TV ? r.pick(tvs) : r.chance(1, 2) ? "complex[float32]" : "complex[float64]";
    break;
  case 3:
    d.k = FSTR;
    d.n = r.chance(1, 3) ? r.range(1, 99999) : r.range(1, 12);
    d.name = r.pick(encs);
    break;
  case 4:
    d.k = FBYTES;
    d.m = 1 << r.below(5);
    d.n = d.m * r.range(1, 40);
    break;
  case 5:
    d.k = BYTES;
    d.m = 1 << r.below(5);
    break;
  case 6:
    d.k = CHAR;
    d.name = encs[r.pickl({1, 3, 4})];
    break;
  case 7:
  case 8:
  case 9:
    return dim(FIXEDN, gen(r, depth - 1), r.chance(1, 4) ? r.range(0, 99999) : r.range(0, 12));
  case 10:
    return dim(FIXED, gen(r, depth - 1));
  case 11:
    return dim(VAR, gen(r, depth - 1));
  case 12:
    return dim(r.chance(1, 4) ? DIM : TVDIM, gen(r, depth - 1), 0, r.pick(tvs));
  case 13:
    return dim(ELL, gen(r, depth - 1), 0, r.chance(1, 2) ? "" : r.pick(tvs));
  case 14: {
    d = dim(POW, gen(r, depth - 1), r.range(0, 20));
    d.name = r.chance(1, 3) ? "" : r.chance(1, 3) ? "Fixed" : r.chance(1, 2) ? "var" : r.pick(tvs);
    d.exp = r.pick(tvs);
    break;
  }
  case 15:
  case 16: {
    if (nopt)
      return gen(r, depth - 1, true);
    return dim(OPT, gen(r, depth - 1, true));
  }
  case 17:
    return dim(r.chance(1, 2) ? PTR : TVC, gen(r, depth - 1), 0, r.pick(tvs));
  case 18:
  case 19:
  case 20: {
    d.k = r.chance(1, 3) ? TUPLE : STRUCT;
    int n = r.chance(1, 10) ? r.range(8, 14) : r.below(5), first = r.below(22);
    for (int i = 0; i < n; i++) {
      d.sub.push_back(gen(r, depth - 1));
      if (d.k == STRUCT)
        d.names.push_back(fieldnames[(first + i * 7) % 22]);
    }
    d.variadic = r.chance(1, 5);
    break;
  }
  case 21:
  case 22: {
    d.k = CALL;
    d.sub.push_back(gen(r, depth - 1));
    d.npos = r.below(4);
    for (int i = 0; i < d.npos; i++)
      d.sub.push_back(gen(r, depth - 1));
    d.variadic = r.chance(1, 5);
    int n = r.chance(1, 2) ? 0 : r.range(1, 3);
    static const char *const kw[] = {"x", "dst_tp", "axes", "int32", "keep_1"};
    for (int i = 0, f = r.below(5); i < n; i++)
      d.names.push_back(kw[(f + i) % 5]), d.sub.push_back(gen(r, depth - 1));
    d.kwvariadic = n && r.chance(1, 4);
  }
  }
  return d;
}
std::string W(Rng &r) {
  static const char *const ws[] = {" ", "  ", "\n", "\t", " # note: 3 * {x\n", "\r\n", "#\n#;\n"};
  return r.chance(1, 6) ? r.pick(ws) : "";
}
std::string quote(Rng &r, const std::string &s) {
  char q = r.chance(1, 2) ? '\'' : '"';
  std::string o(1, q);
  for (size_t i = 0; i < s.size();) {
    uint32_t c = next_cp(s, i);
    char b[16];
    int h = r.below(8);
    if (c >= 0x80 || c < 32 || h == 0) {
      snprintf(b, sizeof b, c >= 0x10000 || h == 1 ? "\\U%08x" : h == 2 ? "\\u%04X" : "\\u%04x", c);
      o += c == '\t' && h > 4 ? "\\t" : b;
    } else if (c == (unsigned char)q || c == '\\' || (c == '/' && h < 4) || (c == '"' && h < 4))
      o += '\\', o += (char)c;
    else
      o += (char)c;
  }
  return o + q;
}
std::string write(const D &d, Rng &r) {
  std::string o = W(r);
  auto el = [&] { return write(d.sub[0], r); };
  auto star = [&] { return (r.chance(1, 2) ? " " : W(r)) + "*" + (r.chance(1, 2) ? " " : ""); };
  switch (d.k) {
  case NAME: {
    static const char *const al[][2] = {{"int32", "int"}, {"int64", "intptr"}, {"uint64", "size"}, {"uint64", "uintptr"}, {"float64", "real"}, {"complex[float64]", "complex"}, {"complex[float64]", "complex128"},
                                        {"complex[float32]", "complex64"}, {"complex[float64]", "complex [ float64]"}, {"complex[float64]", "complex[real ]"}, {"char", "char['U32']"}, {"bytes", "bytes[align=1]"}};
    for (auto &a : al)
      if (d.name == a[0] && r.chance(1, 3))
        return o + a[1] + W(r);
    o += d.name;
    break;
  }
  case TV:
    o += d.name;
    break;
  case FIXEDN:
  case VAR:
  case FIXED:
  case TVDIM: {
    // equal dimensions in a row may be written as a power
    int run = 1;
    const D *p = &d.sub[0];
    while (p->k == d.k && p->n == d.n && p->name == d.name)
      run++, p = &p->sub[0];
    std::string base = d.k == FIXEDN ? std::to_string(d.n) : d.k == VAR ? "var" : d.k == FIXED ? "Fixed" : d.name;
    if (r.chance(1, run > 1 ? 2 : 10)) {
      int k = r.range(1, run);
      p = &d;
      for (int i = 0; i < k; i++)
        p = &p->sub[0];
      o += base + W(r) + "**" + std::to_string(k) + star() + write(*p, r);
      return o;
    }
    if (d.k == FIXEDN && r.chance(1, 8))
      base = "fixed" + W(r) + "[" + W(r) + base + W(r) + "]";
    return o + base + star() + el();
  }
  case DIM:
    return o + "Dim" + star() + el();
  case ELL:
    return o + d.name + (d.name.empty() ? "" : W(r)) + "..." + star() + el();
  case POW:
    return o + (d.name.empty() ? std::to_string(d.n) : d.name) + W(r) + "**" + d.exp + star() + el();
  case OPT:
    if (r.chance(1, 5))
      return o + "option" + W(r) + "[" + el() + "]";
    return o + "?" + el();
  case STRUCT:
  case TUPLE: {
    o += d.k == STRUCT ? "{" : "(";
    for (size_t i = 0; i < d.sub.size(); i++) {
      if (i)
        o += W(r) + ",";
      o += W(r);
      if (d.k == STRUCT)
        o += (simple(d.names[i]) && r.chance(4, 5) ? d.names[i] : quote(r, d.names[i])) + W(r) + ":";
      o += write(d.sub[i], r);
    }
    o += W(r);
    if (d.variadic)
      o += (d.sub.empty() ? "" : ",") + W(r) + "..." + W(r);
    else if (d.sub.size() && r.chance(1, 8))
      o += "," + W(r);
    o += d.k == STRUCT ? "}" : ")";
    break;
  }
  case CALL: {
    o += "(";
    bool c = false;
    auto sep = [&] {
      if (c)
        o += ",";
      c = true;
      o += W(r);
    };
    for (int i = 0; i < d.npos; i++)
      sep(), o += write(d.sub[1 + i], r);
    if (d.variadic)
      sep(), o += "...", o += W(r);
    for (size_t i = 0; i < d.names.size(); i++)
      sep(), o += d.names[i] + W(r) + ":" + write(d.sub[1 + d.npos + i], r);
    if (d.kwvariadic)
      sep(), o += "...";
    o += W(r) + ")" + W(r) + "->" + el();
    break;
  }
  case TVC:
    o += d.name + W(r) + "[" + el() + "]";
    break;
  case PTR:
    o += "pointer" + W(r) + "[" + el() + "]";
    break;
  case FSTR: {
    static const char *const sp[][3] = {{"utf8", "U8", "utf-8"}, {"ascii", "A", "us-ascii"}, {"utf16", "U16", "utf_16"}, {"utf32", "U32", "utf-32"}, {"ucs2", "ucs-2", "ucs_2"}};
    o += "fixed_string" + W(r) + "[" + W(r) + std::to_string(d.n);
    for (auto &x : sp)
      if (d.name == x[0] && (d.name != "utf8" || r.chance(1, 3)))
        o += W(r) + "," + W(r) + "'" + r.pick(x) + "'";
    o += W(r) + "]";
    break;
  }
  case FBYTES:
  case BYTES:
    if (d.k == BYTES && d.m == 1)
      return o + "bytes";
    o += d.k == FBYTES ? "fixed_bytes" + W(r) + "[" + W(r) + std::to_string(d.n) : "bytes[";
    if (d.m != 1 || (d.k == FBYTES && r.chance(1, 4)))
      o += (d.k == FBYTES ? W(r) + "," : "") + W(r) + "align" + W(r) + "=" + W(r) + std::to_string(d.m);
    o += W(r) + "]";
    break;
  case CHAR:
    o += d.name == "utf32" ? "char" : "char" + W(r) + "[" + W(r) + "'" + d.name + "'" + W(r) + "]";
    break;
  }
  return o + W(r);
}
std::string statements(const D &d, Rng &r) {
  std::string o = write(d, r);
  if (o.compare(0, 4, "type") == 0) // a statement begins with this word
    return o.size() == 4 || simple(o.substr(0, 5)) == false ? o : "{" + o;
  if (r.chance(1, 10))
    o = "type " + std::string(r.chance(1, 2) ? "alias" : "Alias2") + " = " + write(gen(r, 1), r) + "\n" + o;
  else if (r.chance(1, 15))
    o = write(gen(r, 1), r) + " " + o;
  return o;
}
const char abc[] = "[]{}()<>->,:.*?'\"\\0123456789 \n#=TNMxint_var";
void damage(Rng &r, std::string &s) {
  size_t n = s.size();
  static const char *const words[] = {"...", "**", " * ", "->", "?", "3 * ", "var * ", "{x: ", "(", ")", "}", "]", "[", ",", ":", "type x = ", "int32", "N", "...,", "'", "99999999999999999999", "0", "-"};
  switch (r.below(8)) {
  case 0:
    s.resize(r.below(n + 1));
    break;
  case 1:
    if (n)
      s[r.below(n)] = abc[r.below(sizeof abc - 1)];
    break;
  case 2:
    s.insert(r.below(n + 1), 1, abc[r.below(sizeof abc - 1)]);
    break;
  case 3: {
    size_t a = r.below(n + 1), b = std::min(n, a + r.range(1, 6));
    s.erase(a, b - a);
    break;
  }
  case 4: {
    size_t a = r.below(n + 1), b = std::min(n, a + r.range(1, 9));
    s.insert(r.below(n + 1), s.substr(a, b - a));
    break;
  }
  case 5:
  case 6:
    s.insert(r.below(n + 1), r.pick(words));
    break;
  default:
    if (n > 1)
      std::swap(s[r.below(n)], s[r.below(n)]);
  }
}


enum { T_PARSE, T_MAKE, T_PRINT, T_EQUAL, T_INSPECT, T_ROUND, T_COPY, T_PUT, T_TAKE, T_DROP, NK };
const char *const names[] = {"parse", "make", "print", "compare", "inspect", "round trip", "copy", "put", "take", "drop"};
enum { NP = 3, NS = 3, NTEXT = 3 };
struct Cell {
  ndt::type t;
  std::shared_ptr<D> d;
};
struct Buf { // exact size, in the simulated heap
  char *p = nullptr;
  size_t n = 0;
  void make(const std::string &s) {
    Mode q(M_QUIET);
    n = s.size();
    p = (char *)malloc(n ? n : 1);
    if (n)
      memcpy(p, s.data(), n);
  }
  void done() {
    Mode q(M_QUIET);
    free(p);
    p = nullptr;
  }
};
// takes `left` bytes and then fails, as a full disk does
struct Sink : std::streambuf {
  std::string got;
  uint64_t left;
  bool throws, failed = false;
  Sink(uint64_t l, bool t) : left(l), throws(t) {}
  int overflow(int c) override {
    char ch = (char)c;
    return c != EOF && xsputn(&ch, 1) == 1 ? c : EOF;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    uint32_t m = rt::set_mode(M_HOST);
    std::streamsize k = (uint64_t)n < left ? n : (std::streamsize)left;
    got.append(p, k);
    rt::stream_bytes(k);
    left -= k;
    if (k < n) {
      failed = true;
      rt::op_note_fired(rt::FK_STREAM);
    }
    rt::set_mode(m);
    if (k < n && throws)
      throw std::runtime_error("simulated: the stream fails");
    return k;
  }
};

struct C09 : Scenario {
  Cell cell[rt::MAXF][NP], slot[NS];
  rt::SimLock lock;
  struct Text {
    std::string s;
    Buf b;
  } texts[NTEXT];
  int depth = 2;
  bool fresh;
  explicit C09(bool f) : fresh(f) {}

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 4) ? 1 : r.range(2, 4);
    int n = r.range(6, 24);
    static const int mix[] = {T_PARSE, T_PARSE, T_PARSE, T_PARSE, T_PARSE, T_PARSE, T_MAKE, T_MAKE, T_PRINT, T_PRINT, T_EQUAL, T_INSPECT, T_INSPECT, T_ROUND, T_COPY, T_PUT, T_TAKE, T_DROP};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NP), r.below(NP), r.below(30000), r.below(30000), r.below(2) ? 0 : r.range(1, 3), r.below(6));
    p.params[0] = r.range(0, 4);
    p.params[1] = r.below(30000);
    p.params[2] = r.below(30000);
  }
  std::string show(const Plan &, const Op &o) override { return fmt("%s %d from %d r=%d,%d damage=%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }
  void put(Cell &c, ndt::type &t, std::shared_ptr<D> d) {
    {
      Mode q(M_SIM);
      c.t = std::move(t);
    }
    c.d = d;
  }
  static void clear(Cell &c) {
    {
      Mode q(M_SIM);
      c.t = ndt::type();
    }
    c.d.reset();
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)p.params[1] << 20) ^ p.params[2]);
    depth = p.params[0];
    for (Text &x : texts) {
      x.s = statements(gen(r, depth), r);
      if (r.chance(1, 4))
        damage(r, x.s);
      x.b.make(x.s);
    }
    for (Cell &c : slot)
      if (!fresh && r.chance(2, 3)) {
        auto d = std::make_shared<D>(gen(r, depth));
        Mode q(M_QUIET);
        c.t = build(*d);
        c.d = d;
      }
  }
  // the text of a type, without faults
  static std::string text(const ndt::type &t) {
    uint32_t m = rt::get_mode();
    Sink s(~0ull, false);
    {
      Mode q(M_PEEK);
      std::ostream o(&s);
      o << t;
    }
    (void)m;
    return s.got;
  }
  void verify(const char *what, const Cell &c) {
    std::string got = c.d ? text(c.t) : "", want = c.d ? canon(*c.d) : "";
    if (got != want)
      rt::violation("wrong-type", "%s: got %.600s, has to be %.600s", what, got.c_str(), want.c_str());
  }
  static bool memory() { return rt::op_fired_mask() & (1u << rt::FK_ALLOC | 1u << rt::FK_ALLOC_STICKY | 1u << rt::FK_NATURAL); }
  void refusal(const std::string &s, const Outcome &o) {
    size_t p = o.what.find("Error parsing datashape at line ");
    if (p == std::string::npos)
      return;
    int line = 0, col = 0;
    if (sscanf(o.what.c_str() + p, "Error parsing datashape at line %d, column %d", &line, &col) != 2)
      rt::violation("bad-position", "the error message has no position: %s", o.what.substr(0, 80).c_str());
    size_t b = 0;
    int l = 1;
    while (l < line) {
      b = s.find('\n', b);
      if (b == std::string::npos)
        break;
      b++, l++;
    }
    size_t e = b == std::string::npos ? b : s.find('\n', b);
    size_t len = (e == std::string::npos ? s.size() : e) - b;
    if (b == std::string::npos || line < 1 || col < 1 || (size_t)col > len + 2)
      rt::violation("bad-position", "an error is reported at line %d column %d, which the text does not have: \"%s\"", line, col, s.substr(0, 300).c_str());
    PROBE("an error with its place in the text");
  }
  std::string faulted(std::string s) {
    if (uint32_t a = rt::op_fault_arg(rt::FK_CUT)) {
      s.resize(a % (s.size() + 1));
      rt::op_note_fired(rt::FK_CUT);
    }
    if (uint32_t a = rt::op_fault_arg(rt::FK_FLIP))
      if (s.size()) {
        s[a % s.size()] = abc[(a / 7) % (sizeof abc - 1)];
        rt::op_note_fired(rt::FK_FLIP);
      }
    return s;
  }
  void parse(Cell &c, const std::string &s, const Buf &buf, int how) {
    auto d = std::make_shared<D>();
    Verdict v = judge(s, *d);
    ndt::type t;
    for (int round = 0;; round++) {
      Outcome o = attempt([&] {
        if (how == 0)
          t = ndt::type(s);
        else if (how == 1)
          t = type_from_datashape(buf.p, buf.p + buf.n);
        else
          t = ndt::type(buf.p, buf.p + buf.n);
      });
      if (o.ok) {
        if (v == BAD)
          rt::violation("accepted-malformed", "a text which is no datashape gave the type %s: %s", text(t).substr(0, 300).c_str(), s.substr(0, 400).c_str());
        if (v == OK) {
          put(c, t, d);
          verify("a parsed type", c);
          PROBE("parsed");
        } else {
          text(t);
          Mode q(M_SIM);
          t = ndt::type();
        }
        return;
      }
      if (v != OK && o.type != "std::bad_alloc") {
        refusal(s, o);
        PROBE("refused a text");
        return;
      }
      bool mem = memory();
      if (!mem || round)
        rt::violation(mem ? "no-recovery" : "refused-valid", "a datashape was refused: %s: %s; the text: %s", o.type.c_str(), o.what.substr(0, 200).c_str(), s.substr(0, 400).c_str());
      rt::op_faults_off();
      PROBE("again after a fault");
    }
  }
  void same(const char *what, const ndt::type &t, const D &d) {
    std::string got = text(t), want = canon(d);
    if (got != want)
      rt::violation("wrong-part", "%s: got %.400s, has to be %.400s", what, got.c_str(), want.c_str());
  }
  void inspect(const Cell &c) {
    const D &d = *c.d;
    Mode q(M_PEEK);
    const ndt::type &t = c.t;
    auto is = [&](bool ok, const char *what) {
      if (!ok)
        rt::violation("wrong-part", "%s of the type %.400s is wrong", what, canon(d).c_str());
    };
    int nd = 0;
    const D *p = &d;
    while (p->k == FIXEDN || p->k == FIXED || p->k == VAR || p->k == TVDIM)
      nd++, p = &p->sub[0];
    if (p->k != ELL && p->k != POW && p->k != DIM && p->k != PTR && p->k != OPT && p->k != TVC && !(p->k == NAME && p->name == "Any") && p->k != TV && p->k != CALL) {
      is(t.get_ndim() == nd, "the number of dimensions");
      same("the data type", t.get_dtype(), *p);
      PROBE("dimensions");
    }
    size_t size, align;
    if (layout(d, size, align)) {
      is(t.get_default_data_size() == size, "the size");
      is(t.get_data_alignment() == align, "the alignment");
      PROBE("layout");
    }
    switch (d.k) {
    case FIXEDN:
      is(t.get_id() == fixed_dim_id && t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == d.n, "the size of the dimension");
    case FIXED:
    case VAR:
    case TVDIM:
    case ELL:
      same("the element type", t.extended<ndt::base_dim_type>()->get_element_type(), d.sub[0]);
      if (d.k == TVDIM)
        is(t.extended<ndt::typevar_dim_type>()->get_name() == d.name, "the name");
      if (d.k == ELL)
        is(t.extended<ndt::ellipsis_dim_type>()->get_name() == d.name, "the name");
      break;
    case POW:
      same("the element type", t.extended<ndt::pow_dimsym_type>()->get_element_type(), d.sub[0]);
      is(t.extended<ndt::pow_dimsym_type>()->get_exponent() == d.exp, "the exponent");
      break;
    case OPT:
      same("the value type", t.extended<ndt::option_type>()->get_value_type(), d.sub[0]);
      break;
    case STRUCT:
    case TUPLE: {
      auto *x = d.k == TUPLE ? t.extended<ndt::tuple_type>() : nullptr;
      auto *s = d.k == TUPLE ? nullptr : t.extended<ndt::struct_type>();
      is((x ? x->get_field_count() : s->get_field_count()) == (intptr_t)d.sub.size() && (x ? x->is_variadic() : s->is_variadic()) == d.variadic, "the number of fields");
      for (size_t i = 0; i < d.sub.size(); i++) {
        same("the type of a field", x ? x->get_field_type(i) : s->get_field_type(i), d.sub[i]);
        if (d.k == STRUCT) {
          is(s->get_field_name(i) == d.names[i], "a field name");
          is(s->get_field_index(d.names[i]) == (intptr_t)i, "the index of a name");
          is(s->get_named_field_types()[i].second == d.names[i], "a named field");
          same("a named field", s->get_named_field_types()[i].first, d.sub[i]);
        }
      }
      if (d.k == STRUCT)
        is(s->get_field_index("no such field") == -1, "the index of an unknown name");
      PROBE("fields");
      break;
    }
    case CALL: {
      auto *x = t.extended<ndt::callable_type>();
      same("the result type", x->get_return_type(), d.sub[0]);
      is((int)x->get_narg() == d.npos && x->get_nkwd() == d.names.size() && x->is_arg_variadic() == d.variadic, "the number of arguments");
      for (int i = 0; i < d.npos; i++)
        same("the type of an argument", x->get_argument_types()[i], d.sub[1 + i]);
      for (size_t i = 0; i < d.names.size(); i++) {
        same("the type of a keyword", x->get_named_kwd_types()[i].first, d.sub[1 + d.npos + i]);
        is(x->get_kwd_index(d.names[i]) == (intptr_t)i, "the index of a keyword");
      }
      is(d.names.empty() || x->is_kwd_variadic() == d.kwvariadic, "more keywords");
      PROBE("function types");
      break;
    }
    case TV:
      is(t.extended<ndt::typevar_type>()->get_name() == d.name, "the name");
      break;
    case TVC:
      is(t.extended<ndt::typevar_constructed_type>()->get_name() == d.name, "the name");
      break;
    case PTR:
      same("the target", t.extended<ndt::pointer_type>()->get_target_type(), d.sub[0]);
      break;
    default:
      break;
    }
  }
  void print(const Cell &c, Rng &r) {
    std::string want = canon(*c.d);
    if (r.chance(1, 2)) {
      std::string got;
      must_do("str() of a type", [&] {
        std::string s = c.t.str();
        Mode q(M_HOST);
        got.assign(s.data(), s.size());
      });
      if (got != want)
        rt::violation("wrong-text", "str() gave %.400s for the type %.400s", got.c_str(), want.c_str());
      PROBE("str");
      return;
    }
    uint32_t a = rt::op_fault_arg(rt::FK_STREAM);
    bool thr = r.chance(1, 2), exc = r.chance(1, 3);
    Sink s(a ? a - 1 : ~0ull, thr);
    bool bad = false;
    Outcome o = attempt([&] {
      std::ostream out(&s);
      if (exc)
        out.exceptions(std::ios::badbit | std::ios::failbit);
      out << c.t;
      bad = !out;
    });
    if (o.ok ? s.failed && !bad : !exc && !memory())
      rt::violation("lost-error", "printing a type to a stream that fails: %s", o.ok ? "the stream is good afterwards" : o.type.c_str());
    if (o.ok && !bad ? s.got != want : want.compare(0, s.got.size(), s.got) != 0)
      rt::violation("wrong-text", "printing gave %.400s for the type %.400s", s.got.c_str(), want.c_str());
    if (!o.ok || bad) {
      if (!rt::op_fired_mask())
        rt::violation("unexpected-error", "printing the type %.400s failed although nothing was injected", want.c_str());
      PROBE("the stream failed");
    }
    PROBE("printed");
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    Cell &b = cell[f][o.a[0] % NP];
    Cell &a = cell[f][o.a[1] % NP];
    Rng r(((uint64_t)(unsigned short)o.a[2] << 16) ^ (unsigned short)o.a[3]);
    Cell &s = slot[(unsigned short)o.a[5] % NS];
    switch (o.kind) {
    case T_PARSE: {
      if (r.chance(1, 4)) {
        Text &x = texts[r.below(NTEXT)];
        parse(b, x.s, x.b, r.below(3));
        PROBE("a text shared by the threads");
        break;
      }
      std::string t = statements(gen(r, r.range(0, depth)), r);
      for (int i = 0; i < o.a[4]; i++)
        damage(r, t);
      t = faulted(t);
      Buf own;
      own.make(t);
      parse(b, t, own, r.below(3));
      own.done();
      break;
    }
    case T_MAKE: {
      auto d = std::make_shared<D>(gen(r, r.range(0, depth)));
      ndt::type t;
      must_do("making a type", [&] { t = build(*d); });
      put(b, t, d);
      verify("a constructed type", b);
      PROBE("made");
      break;
    }
    case T_PRINT:
      if (a.d)
        print(a, r);
      break;
    case T_EQUAL: {
      if (!a.d || !b.d)
        break;
      Cell tmp;
      const Cell *c = &b;
      if (r.chance(1, 2)) { // an equal type built in another way, or one which differs in one place
        tmp.d = std::make_shared<D>(*a.d);
        if (r.chance(1, 2)) {
          D *p = tmp.d.get();
          while (!p->sub.empty() && r.chance(3, 4))
            p = &p->sub[r.below(p->sub.size())];
          *p = gen(r, 1, true);
        }
        must_do("making a type", [&] { tmp.t = build(*tmp.d); });
        c = &tmp;
      }
      bool eq = false, ne = false, rev = false;
      must_do("comparing types", [&] {
        eq = a.t == c->t;
        rev = c->t == a.t;
        ne = a.t != c->t;
      });
      bool want = canon(*a.d) == canon(*c->d);
      if (eq != want || rev != want || ne == want)
        rt::violation("wrong-equality", "%.300s and %.300s compare as %s", canon(*a.d).c_str(), canon(*c->d).c_str(), eq && rev && !ne ? "equal" : "different or neither");
      PROBE("compared");
      if (want)
        PROBE("equal");
      clear(tmp);
      break;
    }
    case T_INSPECT:
      if (a.d)
        inspect(a);
      break;
    case T_ROUND: {
      if (!a.d)
        break;
      ndt::type t;
      bool eq = false;
      must_do("parsing the text of a type", [&] {
        t = ndt::type(a.t.str());
        eq = t == a.t;
      });
      if (!eq)
        rt::violation("wrong-equality", "the type parsed from the text of %.400s is another one: %.400s", canon(*a.d).c_str(), text(t).c_str());
      put(b, t, a.d);
      PROBE("round trip");
      break;
    }
    case T_COPY:
      if (&a == &b)
        break;
      {
        Mode q(M_SIM);
        b.t = a.t;
      }
      b.d = a.d;
      break;
    case T_PUT: {
      rt::lock(lock);
      {
        Mode q(M_SIM);
        s.t = b.t;
      }
      s.d = b.d;
      rt::unlock(lock);
      break;
    }
    case T_TAKE: {
      rt::lock(lock);
      {
        Mode q(M_SIM);
        b.t = s.t;
      }
      b.d = s.d;
      rt::unlock(lock);
      PROBE("from another thread");
      break;
    }
    case T_DROP:
      clear(b);
      break;
    }
    for (Cell &c : cell[f])
      verify("a type", c);
  }
  void end() override {
    for (auto &row : cell)
      for (Cell &c : row) {
        verify("a type after all threads ended", c);
        clear(c);
      }
    for (Cell &c : slot) {
      verify("a shared type after all threads ended", c);
      clear(c);
    }
    for (Text &x : texts)
      x.b.done();
  }
};
Tuning tune(bool fresh) {
  Tuning t;
  t.text = true;
  t.stream = true;
  t.fresh = fresh;
  return t;
}
Register reg("C09", "datashape", []() -> Scenario * { return new C09(false); }, tune(false), 8);
Register reg2("C09", "first use", []() -> Scenario * { return new C09(true); }, tune(true), 1);
} // namespace
