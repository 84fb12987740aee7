// C08: JSON text in, arrays out, and back.  A reference reader written from the grammar decides for every text, also for
// truncated and corrupted ones, whether it denotes a value of the type and which one.
#include "typed.h"
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
using namespace typed;

namespace {
// ---- the reference reader -----------------------------------------------------------------------------------------
struct Bad {};    // the text is not acceptable
struct Unknown {}; // nothing is promised about it
struct Ref {
  const char *b, *e;
  bool nocheck;
  bool raw = false; // bytes of strings are taken as they are
  bool unsure = false; // the value of some element is not promised
  static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void ws() {
    while (b < e && sp(*b))
      b++;
  }
  bool tok(const char *t) {
    ws();
    size_t n = strlen(t);
    if ((size_t)(e - b) >= n && !memcmp(b, t, n)) {
      b += n;
      return true;
    }
    return false;
  }
  void need(const char *t) {
    if (!tok(t))
      throw Bad();
  }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  // the longest number here; nothing is consumed otherwise
  bool number(std::string &out) {
    const char *p = b;
    if (p < e && *p == '-')
      p++;
    if (p == e || !dig(*p))
      return false;
    if (*p == '0')
      p++;
    else
      while (p < e && dig(*p))
        p++;
    if (p < e && *p == '.') {
      p++;
      if (p == e || !dig(*p))
        return false;
      while (p < e && dig(*p))
        p++;
    }
    if (p < e && (*p == 'e' || *p == 'E')) {
      p++;
      if (p < e && (*p == '+' || *p == '-'))
        p++;
      if (p == e || !dig(*p))
        return false;
      while (p < e && dig(*p))
        p++;
    }
    out.assign(b, p);
    b = p;
    return true;
  }
  static void utf8(std::string &o, uint32_t c) {
    if (c < 0x80)
      o += (char)c;
    else if (c < 0x800)
      o += (char)(0xc0 | c >> 6), o += (char)(0x80 | (c & 63));
    else if (c < 0x10000)
      o += (char)(0xe0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    else
      o += (char)(0xf0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
  }
  static bool valid(const std::string &s) {
    for (size_t i = 0; i < s.size();) {
      unsigned char c = s[i];
      int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
      if (n < 0 || i + n >= s.size() + (n == 0))
        return false;
      uint32_t v = n == 0 ? c : c & (0x3f >> n);
      for (int k = 1; k <= n; k++) {
        if (i + k >= s.size() || (s[i + k] & 0xc0) != 0x80)
          return false;
        v = v << 6 | (s[i + k] & 63);
      }
      if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || (v >= 0xd800 && v < 0xe000) || v > 0x10ffff)
        return false;
      i += n + 1;
    }
    return true;
  }
  bool impossible = false; // the last string escapes a code point that does not exist
  bool str(std::string &out, bool &escaped) {
    if (b == e || *b != '"')
      return false;
    const char *p = b + 1;
    out.clear();
    escaped = false;
    impossible = false;
    for (;;) {
      if (p == e)
        throw Bad();
      char c = *p++;
      if (c == '"')
        break;
      if (c != '\\') {
        out += c;
        continue;
      }
      escaped = true;
      if (p == e)
        throw Bad();
      c = *p++;
      int n = 0;
      switch (c) {
      case '"':
      case '\\':
      case '/':
        out += c;
        break;
      case 'b':
        out += '\b';
        break;
      case 'f':
        out += '\f';
        break;
      case 'n':
        out += '\n';
        break;
      case 'r':
        out += '\r';
        break;
      case 't':
        out += '\t';
        break;
      case 'u':
        n = 4;
        break;
      case 'U': // the library's extension
        n = 8;
        break;
      default:
        throw Bad();
      }
      if (n) {
        uint32_t v = 0;
        if (e - p < n)
          throw Bad();
        for (int i = 0; i < n; i++, p++) {
          char d = *p;
          if (dig(d))
            v = v * 16 + (d - '0');
          else if ((d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F'))
            v = v * 16 + ((d | 32) - 'a' + 10);
          else
            throw Bad();
        }
        if (n == 4 && v >= 0xd800 && v < 0xdc00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') {
          uint32_t w = 0;
          bool hex = true;
          for (int i = 2; i < 6; i++) {
            char d = p[i];
            bool af = (d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F');
            hex &= dig(d) || af;
            w = w * 16 + (dig(d) ? d - '0' : (d | 32) - 'a' + 10);
          }
          if (hex && w >= 0xdc00 && w < 0xe000)
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00), p += 6;
        }
        if ((v >= 0xd800 && v < 0xe000) || v > 0x10ffff)
          out += '\xff', impossible = true; // no such character
        else
          utf8(out, v);
      }
    }
    b = p;
    return true;
  }
  void skip() {
    ws();
    if (b == e)
      throw Bad();
    std::string s;
    bool q;
    if (*b == '{') {
      b++;
      if (tok("}"))
        return;
      do {
        ws();
        if (!str(s, q))
          throw Bad();
        need(":");
        skip();
      } while (tok(","));
      need("}");
    } else if (*b == '[') {
      b++;
      if (tok("]"))
        return;
      do
        skip();
      while (tok(","));
      need("]");
    } else if (*b == '"')
      str(s, q);
    else if (!tok("true") && !tok("false") && !tok("null") && !number(s))
      throw Bad();
  }
  static bool na_text(const std::string &s) {
    if (s.empty() || s == "NA" || s == "None")
      return true;
    return s.size() == 4 && !strcasecmp(s.c_str(), "null");
  }
  // an integer written as digits, maybe with ".000" or a positive exponent
  void integer(K k, const std::string &s, P &p) {
    size_t i = 0;
    bool neg = s[0] == '-';
    i += neg;
    const unsigned __int128 cap = (unsigned __int128)1 << 64;
    unsigned __int128 v = 0;
    bool big = false;
    for (; i < s.size() && dig(s[i]); i++) {
      v = v * 10 + (s[i] - '0');
      big |= v >= cap;
      if (big)
        v = cap;
    }
    if (i < s.size() && s[i] == '.') {
      for (i++; i < s.size() && s[i] == '0'; i++)
        ;
      if (i < s.size())
        return fail();
    } else if (i < s.size()) { // exponent
      i++;
      if (s[i] == '-')
        return fail();
      if (s[i] == '+')
        i++;
      while (i < s.size() && s[i] == '0')
        i++;
      if (s.size() - i > 2)
        return fail();
      for (int n = atoi(s.c_str() + i); n > 0; n--) {
        v *= 10;
        big |= v >= cap;
        if (big)
          v = cap;
      }
    }
    if (big)
      return fail();
    int bits = k == I8 || k == U8 ? 8 : k == I16 || k == U16 ? 16 : k == I32 || k == U32 ? 32 : 64;
    if (k >= U8) {
      if (neg && v)
        return fail();
      if (bits < 64 && v >> bits)
        return fail();
      p->i = (long long)(unsigned long long)v;
    } else {
      unsigned __int128 lim = (unsigned __int128)1 << (bits - 1);
      if (neg ? v > lim : v >= lim)
        return fail();
      p->i = neg ? (long long)(0 - (unsigned long long)v) : (long long)v;
    }
  }
  void fail() {
    if (nocheck)
      unsure = true; // the caller asked for no checks
    else
      throw Bad();
  }
  void num(const T &t, P &p, const std::string &s, bool strict) {
    if (!strict) {
      Ref r{s.data(), s.data() + s.size(), nocheck};
      std::string all;
      if (!r.number(all) || all.size() != s.size())
        throw Unknown();
    }
    if (t.k == F32 || t.k == F64) {
      double d = strtod(s.c_str(), nullptr);
      p->d = t.k == F32 ? strtof(s.c_str(), nullptr) : d;
      if (std::isinf(p->d) && !std::isinf(d))
        fail();
      else if (std::isinf(p->d))
        unsure = true; // there is no text for it
    } else
      integer(t.k, s, p);
  }
  static int bool_word(const std::string &s) {
    std::string l;
    for (char c : s)
      l += c >= 'A' && c <= 'Z' ? c | 32 : c;
    for (const char *w : {"0", "n", "f", "false", "no", "off"})
      if (l == w)
        return 0;
    for (const char *w : {"1", "y", "t", "true", "yes", "on"})
      if (l == w)
        return 1;
    return -1;
  }
  void value(const T &t, P &p) {
    ws();
    std::string s;
    bool q = false;
    p->unset = false;
    switch (t.k) {
    case FIXED:
      need("[");
      for (size_t i = 0; i < p->v.size(); i++) {
        if (i)
          need(",");
        value(t.sub[0], p->v[i]);
      }
      need("]");
      break;
    case VAR:
      need("[");
      p->v.clear();
      if (tok("]"))
        break;
      do {
        p->v.push_back(blank(t.sub[0]));
        value(t.sub[0], p->v.back());
      } while (tok(","));
      need("]");
      break;
    case TUPLE:
    case STRUCT:
      if (t.k == STRUCT && tok("{")) {
        std::vector<bool> seen(t.sub.size());
        if (!tok("}")) {
          do {
            ws();
            if (!str(s, q))
              throw Bad();
            if (impossible)
              throw Unknown();
            need(":");
            size_t i = 0;
            while (i < t.names.size() && t.names[i] != s)
              i++;
            if (i == t.names.size())
              skip();
            else {
              value(t.sub[i], p->v[i]);
              seen[i] = true;
            }
          } while (tok(","));
          need("}");
        }
        for (size_t i = 0; i < seen.size(); i++)
          if (!seen[i]) {
            if (t.sub[i].k != OPT)
              throw Bad();
            p->v[i]->na = true;
          }
        break;
      }
      need("[");
      for (size_t i = 0; i < t.sub.size(); i++) {
        if (i)
          need(",");
        value(t.sub[i], p->v[i]);
      }
      need("]");
      break;
    case BOOL:
      if (tok("true"))
        p->i = 1;
      else if (tok("false"))
        p->i = 0;
      else if (tok("null")) {
        fail();
      } else if (number(s)) {
        if (s == "0" || s == "1")
          p->i = s[0] - '0';
        else if (s.size() == 1)
          fail();
        else
          throw Bad();
      } else if (str(s, q)) {
        if (impossible)
          throw Unknown();
        p->i = bool_word(s);
        if (p->i < 0)
          fail();
      } else
        throw Bad();
      break;
    case STR:
    case FSTR:
      if (!str(s, q))
        throw Bad();
      if (!valid(s)) {
        if (impossible || raw)
          throw Unknown();
        fail(); // without checks something else takes its place
      }
      if (t.k == FSTR) {
        if (s.size() > (size_t)t.n)
          fail();
        size_t z = s.find('\0');
        if (z != std::string::npos)
          unsure = true;
      }
      p->s = s;
      break;
    case OPT: {
      const T &vt = t.sub[0];
      p->na = false;
      if (tok("null")) {
        p->na = true;
        break;
      }
      P &v = p->v[0];
      if (str(s, q)) {
        if (impossible)
          throw Unknown();
        if (na_text(s))
          p->na = true;
        else if (vt.k == BOOL) {
          v->i = bool_word(s);
          if (v->i < 0)
            throw Bad();
        } else
          num(vt, v, s, false);
      } else if (vt.k == BOOL) {
        if (tok("true"))
          v->i = 1;
        else if (tok("false"))
          v->i = 0;
        else if (number(s) && (s == "0" || s == "1"))
          v->i = s[0] - '0';
        else
          throw Bad();
      } else if (number(s))
        num(vt, v, s, true);
      else
        throw Bad();
      if (!p->na && (vt.k == I8 ? v->i == INT8_MIN : vt.k == I16 ? v->i == INT16_MIN : vt.k == I32 ? v->i == INT32_MIN : vt.k == I64 ? v->i == INT64_MIN : vt.k == U8 ? v->i == UINT8_MAX : vt.k == U16 ? v->i == UINT16_MAX : vt.k == U32 ? v->i == UINT32_MAX : vt.k == U64 && v->i == -1))
        p->na = true;
      break;
    }
    default:
      if (number(s))
        num(t, p, s, true);
      else if (str(s, q)) {
        if (impossible)
          throw Unknown();
        num(t, p, s, false);
      }
      else
        throw Bad();
    }
  }
};
enum Verdict { OK, BAD, UNSURE /* accepted, some value unknown */, UNKNOWN };
const char *const vnames[] = {"well-formed", "malformed", "accepted", "unspecified"};
Verdict judge(const T &t, const std::string &s, P &out, bool nocheck = false, bool raw = false) {
  Ref r{s.data(), s.data() + s.size(), nocheck, raw};
  out = blank(t);
  try {
    r.value(t, out);
    r.ws();
    if (r.b != r.e)
      return BAD;
    return r.unsure ? UNSURE : OK;
  } catch (Bad &) {
    return BAD;
  } catch (Unknown &) {
    return UNKNOWN;
  }
}
bool well_formed(const std::string &s) {
  Ref r{s.data(), s.data() + s.size(), false};
  try {
    r.skip();
    r.ws();
    return r.b == r.e;
  } catch (Bad &) {
    return false;
  }
}

// ---- texts ---------------------------------------------------------------------------------------------------------
std::string junk(Rng &r, int depth) {
  switch (r.below(depth > 0 ? 8 : 6)) {
  case 0:
    return "null";
  case 1:
    return r.chance(1, 2) ? "true" : "false";
  case 2:
    return std::to_string(r.below(1000) - 500);
  case 3:
    return "-1.5e+3";
  case 4:
    return "\"x\\ty\\u00e9\"";
  case 5:
    return r.chance(1, 2) ? "{}" : "[]";
  case 6: {
    std::string s = "[";
    for (int i = 0, n = r.range(1, 3); i < n; i++)
      s += (i ? ", " : "") + junk(r, depth - 1);
    return s + "]";
  }
  default: {
    std::string s = "{";
    for (int i = 0, n = r.range(1, 3); i < n; i++)
      s += std::string(i ? "," : "") + "\"k" + std::to_string(i) + "\" : " + junk(r, depth - 1);
    return s + "}";
  }
  }
}
std::string quoted(Rng &r, const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    char b[20];
    int h = r.below(10);
    int more = (unsigned char)c < 0xc2 ? 0 : (unsigned char)c < 0xe0 ? 1 : (unsigned char)c < 0xf0 ? 2 : 3;
    if (more && i + more < s.size() && h < 3) { // by its number
      uint32_t v = (unsigned char)c & (0x3f >> more);
      for (int k = 1; k <= more; k++)
        v = v << 6 | ((unsigned char)s[i + k] & 0x3f);
      if (v < 0x10000)
        snprintf(b, sizeof b, h ? "\\u%04x" : "\\u%04X", v);
      else if (h == 0)
        snprintf(b, sizeof b, "\\U%08x", v);
      else
        snprintf(b, sizeof b, h == 1 ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", 0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 0x3ff));
      o += b;
      i += more;
      continue;
    }
    snprintf(b, sizeof b, h == 0 ? "\\U%08x" : h == 1 ? "\\u%04X" : "\\u%04x", (unsigned char)c);
    if ((unsigned char)c < 0x80 && (h < 2 || (unsigned char)c < 32))
      o += c == '\n' && h > 4 ? "\\n" : c == '\t' && h > 4 ? "\\t" : c == '\b' && h > 4 ? "\\b" : b;
    else if (c == '"' || c == '\\' || (c == '/' && h < 5))
      o += '\\', o += c;
    else
      o += c;
  }
  return o + "\"";
}
std::string W(Rng &r) {
  static const char *const ws[] = {" ", "  ", "\n", "\t", " \n ", "\r\n", "\v"};
  return r.chance(1, 6) ? r.pick(ws) : "";
}
// text of the value with every freedom the format has
std::string write(const T &t, const P &p, Rng &r, bool rec_names = true) {
  std::string o = W(r);
  switch (t.k) {
  case BOOL: {
    static const char *const no[] = {"false", "0", "\"no\"", "\"N\"", "\"False\"", "\"off\"", "\"f\""};
    static const char *const yes[] = {"true", "1", "\"yes\"", "\"Y\"", "\"TRUE\"", "\"on\"", "\"t\""};
    int h = r.chance(3, 4) ? 0 : r.below(7);
    std::string w = p->i ? yes[h] : no[h];
    o += h > 1 && r.chance(1, 2) ? quoted(r, w.substr(1, w.size() - 2)) : w;
    break;
  }
  case F32:
  case F64: {
    char b[40];
    int h = r.below(6);
    if (h == 0 && p->d == (long long)p->d)
      snprintf(b, sizeof b, "%lld", (long long)p->d);
    else
      snprintf(b, sizeof b, h < 2 ? "%.17e" : h == 2 ? "%.6f" : "%.17g", p->d);
    o += r.chance(1, 10) ? quoted(r, b) : b;
    break;
  }
  case STR:
  case FSTR:
    o += quoted(r, p->s);
    break;
  case OPT:
    if (p->na) {
      static const char *const na[] = {"null", "null", "null", "\"\"", "\"NA\"", "\"NULL\"", "\"None\""};
      o += r.pick(na);
    } else if (t.sub[0].k == BOOL)
      o += r.chance(1, 4) ? (p->v[0]->i ? "1" : "0") : r.chance(1, 6) ? quoted(r, p->v[0]->i ? "Yes" : "no") : p->v[0]->i ? "true" : "false";
    else
      o += write(t.sub[0], p->v[0], r);
    break;
  case FIXED:
  case VAR:
    o += '[';
    for (size_t i = 0; i < p->v.size(); i++)
      o += (i ? "," : "") + write(t.sub[0], p->v[i], r);
    o += W(r) + "]";
    break;
  case TUPLE:
    o += '[';
    for (size_t i = 0; i < t.sub.size(); i++)
      o += (i ? "," : "") + write(t.sub[i], p->v[i], r);
    o += W(r) + "]";
    break;
  case STRUCT: {
    if (r.chance(1, 4)) {
      o += '[';
      for (size_t i = 0; i < t.sub.size(); i++)
        o += (i ? "," : "") + write(t.sub[i], p->v[i], r);
      o += W(r) + "]";
      break;
    }
    o += '{';
    std::vector<int> order;
    for (size_t i = 0; i < t.sub.size(); i++)
      order.push_back(i);
    if (r.chance(1, 2))
      for (size_t i = order.size(); i > 1; i--)
        std::swap(order[i - 1], order[r.below(i)]);
    bool first = true;
    for (int i : order) {
      if (t.sub[i].k == OPT && p->v[i]->na && r.chance(1, 2))
        continue; // a missing field is NA
      if (r.chance(1, 12)) {
        o += (first ? "" : ",") + W(r) + "\"zz\"" + W(r) + ":" + junk(r, 2);
        first = false;
      }
      o += (first ? "" : ",") + W(r) + (r.chance(1, 8) ? quoted(r, t.names[i]) : "\"" + t.names[i] + "\"") + W(r) + ":" + write(t.sub[i], p->v[i], r);
      first = false;
    }
    o += W(r) + "}";
    break;
  }
  default: {
    std::string n = t.k == U64 ? std::to_string((unsigned long long)p->i) : std::to_string(p->i);
    if (p->i && p->i % 10 == 0 && r.chance(1, 4))
      n = (t.k == U64 ? std::to_string((unsigned long long)p->i / 10) : std::to_string(p->i / 10)) + (r.chance(1, 2) ? "e1" : "E+01");
    else if (r.chance(1, 12))
      n += ".00";
    o += r.chance(1, 12) ? quoted(r, n) : n;
  }
  }
  return o + W(r);
}
const char abc[] = "[]{},:\"0123456789-+.eEtfnulr\\/ NAxU\n";
void damage(Rng &r, std::string &s) {
  size_t n = s.size();
  switch (r.below(10)) {
  case 9: { // bytes which are no text
    std::string w;
    for (int k = r.chance(1, 2) ? r.range(1, 3) : r.range(10, 60); k; k--)
      w += (char)(r.chance(1, 8) ? 'a' : 0x80 | r.below(128));
    size_t b = r.below(n + 1);
    if (r.chance(3, 4) && s.find('"', b) != std::string::npos)
      b = s.find('"', b) + 1;
    s.insert(b, w);
    break;
  }
  case 7:
  case 8: { // a value of another kind
    static const char *const other[] = {"null", "true", "false", "\"\"", "\"NA\"", "0", "1", "-1", "[]", "{}", "[null]", "\"x\"", "NULL", "nan", "2", "\"2\"", "10", "1.0", "1e0"};
    size_t b = r.below(n + 1), e;
    while (b < n && !strchr("[,:", s[b]))
      b++;
    b = b < n ? b + 1 : 0;
    for (e = b; e < n && !strchr(",]}", s[e]); e++)
      ;
    s.replace(b, e - b, r.pick(other));
    break;
  }
  case 0:
    s.resize(r.below(n + 1));
    break;
  case 1:
    if (n)
      s[r.below(n)] = abc[r.below(sizeof abc - 1)];
    break;
  case 2:
    s.insert(r.below(n + 1), 1, abc[r.below(sizeof abc - 1)]);
    break;
  case 3: {
    size_t a = r.below(n + 1), b = std::min(n, a + r.range(1, 6));
    s.erase(a, b - a);
    break;
  }
  case 4: {
    size_t a = r.below(n + 1), b = std::min(n, a + r.range(1, 6));
    s.insert(r.below(n + 1), s.substr(a, b - a));
    break;
  }
  case 5: // a number gets longer
    for (size_t i = r.below(n + 1); i < n; i++)
      if (s[i] >= '0' && s[i] <= '9') {
        s.insert(i, std::string(r.range(1, 20), '0' + r.below(10)));
        break;
      }
    break;
  default:
    if (n > 1)
      std::swap(s[r.below(n)], s[r.below(n)]);
  }
}
// reals are printed with six digits
void rounded(const T &t, const P &p) {
  if (t.k == F32 || t.k == F64) {
    char b[40];
    snprintf(b, sizeof b, "%g", p->d);
    p->d = t.k == F32 ? strtof(b, nullptr) : strtod(b, nullptr);
  }
  for (size_t i = 0; i < p->v.size(); i++)
    rounded(t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0], p->v[i]);
}

enum { J_PARSE, J_INTO, J_VALIDATE, J_FORMAT, J_ROUND, J_KERNEL, J_REF, J_DROP, NK };
const char *const names[] = {"parse_json", "parse_json into", "validate_json", "format_json", "round trip", "json::parse", "copy_ref", "drop"};
enum { NP = 3, NFROZEN = 2, NT = 4, NTEXT = 3 };
struct Cell {
  nd::array a;
  std::shared_ptr<T> t;
  P p;
  bool frozen = false;
  bool set() const { return !!t; }
};
struct Buf { // exact size, in the simulated heap
  char *p = nullptr;
  size_t n = 0;
  void make(const std::string &s) {
    Mode q(M_QUIET);
    n = s.size();
    p = (char *)malloc(n ? n : 1);
    if (n)
      memcpy(p, s.data(), n);
  }
  void done() {
    Mode q(M_QUIET);
    free(p);
    p = nullptr;
  }
};

struct C08 : Scenario {
  Cell cell[rt::MAXF][NP];
  Cell frozen[NFROZEN];
  std::shared_ptr<T> types[NT];
  ndt::type tps[NT]; // shared between the threads
  struct Text {
    int ti = 0;
    std::string s;
    Buf b;
  } texts[NTEXT];
  Gen g;

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 3) ? 1 : r.range(2, 4);
    int n = r.range(5, 20);
    static const int mix[] = {J_PARSE, J_PARSE, J_PARSE, J_PARSE, J_PARSE, J_INTO, J_INTO, J_INTO, J_VALIDATE, J_FORMAT, J_FORMAT, J_ROUND, J_KERNEL, J_KERNEL, J_REF, J_DROP};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NP), r.below(NP + NFROZEN), r.below(30000), r.below(30000), r.below(2) ? 0 : r.range(1, 3), r.below(NT));
    p.params[0] = r.range(0, 3);
    p.params[1] = r.below(30000);
    p.params[2] = r.below(30000);
    p.params[3] = r.below(6) == 0;
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %d from %d r=%d,%d damage=%d type=%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void verify(const char *what, const Cell &c) { check_dump("wrong-contents", what, c.a, c.set() ? text(*c.t, c.p) : "NULL"); }
  void put(Cell &dst, nd::array &a, std::shared_ptr<T> t, P p, bool fr = false) {
    {
      Mode q(M_SIM);
      dst.a = std::move(a);
    }
    dst.t = t, dst.p = p, dst.frozen = fr;
  }
  static void clear(Cell &c) {
    drop(c.a);
    c.t.reset();
    c.p.reset();
    c.frozen = false;
  }
  void begin(const Plan &p) override {
    Rng r(((uint64_t)p.params[1] << 20) ^ p.params[2]);
    g = Gen();
    g.bytes = false;
    g.rich = true;
    g.longvars = p.params[3];
    for (int i = 0; i < NT; i++) {
      types[i] = std::make_shared<T>(gen_type(r, g, p.params[0]));
      Mode q(M_QUIET);
      tps[i] = make(*types[i]);
    }
    for (int i = 0; i < NFROZEN; i++) {
      auto t = types[i];
      P v = gen_value(r, g, *t);
      Mode q(M_QUIET);
      nd::array a = nd::empty(tps[i]);
      fill(a, *t, v);
      put(frozen[i], a, t, v, true);
    }
    for (Text &x : texts) {
      x.ti = r.below(NT);
      x.s = write(*types[x.ti], gen_value(r, g, *types[x.ti]), r);
      if (r.chance(1, 3))
        damage(r, x.s);
      x.b.make(x.s);
    }
  }
  // what a refusal looks like
  void refusal(const std::string &s, const Outcome &o) {
    if (o.what.compare(0, 26, "Error parsing JSON at line") && o.what.compare(0, 29, "Error validating JSON at line"))
      return;
    int line = 0, col = 0;
    const char *at = strstr(o.what.c_str(), "at line ");
    if (sscanf(at, "at line %d, column %d", &line, &col) != 2)
      rt::violation("bad-position", "the error message has no position: %s", o.what.substr(0, 80).c_str());
    size_t b = 0;
    int l = 1;
    while (l < line) {
      b = s.find('\n', b);
      if (b == std::string::npos)
        break;
      b++, l++;
    }
    size_t e = b == std::string::npos ? b : s.find('\n', b);
    size_t len = (e == std::string::npos ? s.size() : e) - b;
    if (b == std::string::npos || line < 1 || col < 1 || (size_t)col > len + 1)
      rt::violation("bad-position", "an error is reported at line %d column %d, which the text does not have: \"%s\"", line, col, s.substr(0, 300).c_str());
    // the text around it and the mark below; streams drop what they have no memory for
    if (!rt::op_fired_mask() && s.find('\0') == std::string::npos) {
      std::string tail = o.what, cur = s.substr(b, len), prev;
      size_t n = tail.size();
      size_t z = n < 2 ? std::string::npos : tail.rfind('\n', n - 2);
      std::string mark = z == std::string::npos ? "" : tail.substr(z + 1);
      size_t at = mark.find('^');
      size_t y = z == std::string::npos || !z ? z : tail.rfind('\n', z - 1);
      std::string shown = y == std::string::npos ? "" : tail.substr(y + 1, z - y - 1);
      bool ok = at != std::string::npos && mark == std::string(at, ' ') + "^\n" && y != std::string::npos;
      if (ok && (size_t)col <= len)
        ok = at < shown.size() && shown[at] == cur[col - 1];
      if (ok && len < 200) {
        ok = shown == cur && at == (size_t)col - 1;
        if (ok && line > 1) {
          size_t e1 = b - 1, b1 = e1 ? s.rfind('\n', e1 - 1) : std::string::npos;
          prev = s.substr(b1 == std::string::npos ? 0 : b1 + 1, e1 - (b1 == std::string::npos ? 0 : b1 + 1));
          ok = y >= prev.size() && tail.compare(y - prev.size(), prev.size(), prev) == 0 && (y == prev.size() || tail[y - prev.size() - 1] == '\n');
        }
      }
      if (!ok)
        rt::violation("bad-position", "the message for line %d column %d of \"%s\" shows another place: %s", line, col, s.substr(0, 300).c_str(), tail.substr(0, 600).c_str());
    }
    PROBE("an error with its place in the text");
  }
  // f parses s.  Returns true if there is a result, whose contents `want` tells unless `known` is false.
  template <class F> bool run(const char *what, const T &t, const std::string &s, Verdict v, F &&f) {
    for (int round = 0;; round++) {
      Outcome o = attempt(f);
      bool mem = rt::op_fired_mask() & (1u << rt::FK_ALLOC | 1u << rt::FK_ALLOC_STICKY | 1u << rt::FK_NATURAL);
      if (o.ok) {
        if (v == BAD)
          rt::violation("accepted-malformed", "%s as %s accepted a text which is no value of the type: %s", what, ds(t).c_str(), s.substr(0, 400).c_str());
        return true;
      }
      if (v != OK && v != UNSURE && o.type != "std::bad_alloc") {
        refusal(s, o);
        PROBE("refused a text");
        return false;
      }
      if (!mem || round)
        rt::violation(mem ? "no-recovery" : "refused-valid", "%s as %s refused a well-formed text: %s: %s; the text: %s", what, ds(t).c_str(), o.type.c_str(),
                      o.what.substr(0, 200).c_str(), s.substr(0, 400).c_str());
      rt::op_faults_off();
      PROBE("again after a fault");
    }
  }
  std::string faulted(std::string s) {
    if (uint32_t a = rt::op_fault_arg(rt::FK_CUT)) {
      s.resize(a % (s.size() + 1));
      rt::op_note_fired(rt::FK_CUT);
    }
    if (uint32_t a = rt::op_fault_arg(rt::FK_FLIP))
      if (s.size()) {
        s[a % s.size()] = abc[(a / 7) % (sizeof abc - 1)];
        rt::op_note_fired(rt::FK_FLIP);
      }
    return s;
  }
  nd::array parse(Rng &r, int ti, const std::string &s, const Buf &b, const eval::eval_context *ectx) {
    switch (r.below(8)) {
    case 0:
      return parse_json(tps[ti], s, ectx);
    case 1: {
      nd::array j = nd::array(s);
      return parse_json(tps[ti], j, ectx);
    }
    case 2:
      if (s.find('\0') == std::string::npos && ectx == &eval::default_eval_context) {
        PROBE("zero-terminated text");
        return nd::json::parse2(tps[ti], s);
      }
    default:
      return parse_json(tps[ti], b.p, b.p + b.n, ectx);
    }
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    Cell &b = cell[f][o.a[0] % NP];
    Cell &a = o.a[1] % (NP + NFROZEN) < NP ? cell[f][o.a[1] % (NP + NFROZEN)] : frozen[o.a[1] % (NP + NFROZEN) - NP];
    Rng r(((uint64_t)(unsigned short)o.a[2] << 16) ^ (unsigned short)o.a[3]);
    auto unchanged = [&] { verify("an array after a failed operation on it", a); };
    nd::array n;
    int ti = o.a[5] % NT;
    bool shared = r.chance(1, 4);
    Text *x = shared ? &texts[r.below(NTEXT)] : nullptr;
    std::string s;
    Buf own;
    if (o.kind == J_PARSE || o.kind == J_INTO || o.kind == J_VALIDATE) {
      if (o.kind == J_INTO && (!b.set() || b.frozen))
        return;
      const T *t = o.kind == J_INTO ? b.t.get() : types[ti].get();
      if (shared && (o.kind == J_VALIDATE || ds(*types[x->ti]) == ds(*t))) {
        s = x->s;
        ti = x->ti;
        PROBE("a text shared by the threads");
      } else {
        x = nullptr;
        s = o.kind == J_VALIDATE && r.chance(1, 2) ? junk(r, 4) : write(*t, gen_value(r, g, *t), r);
        for (int i = 0; i < o.a[4]; i++)
          damage(r, s);
        s = faulted(s);
        own.make(s);
      }
    }
    const Buf &buf = x ? x->b : own;
    static const eval::eval_context lax = [] {
      eval::eval_context c;
      c.errmode = assign_error_nocheck;
      return c;
    }();
    bool nocheck = r.chance(1, 10);
    const eval::eval_context *ectx = nocheck ? &lax : &eval::default_eval_context;
    P want;
    switch (o.kind) {
    case J_PARSE: {
      auto t = types[ti];
      Verdict v = judge(*t, s, want, nocheck);
      uint64_t rs = r.next();
      if (run("parse_json", *t, s, v, [&] {
            Rng q(rs);
            n = parse(q, ti, s, buf, ectx);
          })) {
        if (v == OK) {
          put(b, n, t, want);
          PROBE("parsed");
        } else {
          dump(n);
          drop(n);
        }
      }
      break;
    }
    case J_INTO: {
      auto t = b.t;
      Verdict v = judge(*t, s, want, nocheck);
      bool done = run("parse_json into an array", *t, s, v, [&] {
        if (r.chance(1, 3))
          parse_json(b.a, s, ectx);
        else
          parse_json(b.a, buf.p, buf.p + buf.n, ectx);
      });
      if (done && v == OK) {
        // other arrays which share the data
        for (Cell &c : cell[f])
          if (&c != &b && c.p.get() == b.p.get())
            clear(c);
        b.p = want;
        PROBE("parsed in place");
      } else {
        dump(b.a); // unknown, but readable
        const V *old = b.p.get();
        for (Cell &c : cell[f])
          if (c.p.get() == old)
            clear(c);
        PROBE("in place, refused");
      }
      break;
    }
    case J_VALIDATE: {
      bool good = well_formed(s);
      Outcome q;
      run("validate_json", T(), s, good ? OK : BAD, [&] { validate_json(buf.p, buf.p + buf.n); });
      PROBE("validated");
      break;
    }
    case J_FORMAT:
    case J_ROUND: {
      if (r.chance(1, 6)) {
        // a text which ends about where the formatter's buffer does, with characters of several bytes there
        size_t edge = size_t(1024) << r.below(3);
        std::string in = "\"" + std::string(edge - 24 + r.below(22), 'a');
        static const char *const wide[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "z"};
        for (uint64_t k = 4 + r.below(8); k > 0; --k)
          in += wide[r.below(4)];
        in += "\"";
        nd::array m;
        must_do("parse_json of a long string", [&] { m = parse_json(ndt::make_type<ndt::string_type>(), in.data(), in.data() + in.size(), &eval::default_eval_context); }, unchanged);
        must_do("format_json of a long string", [&] { n = format_json(m, false); }, unchanged);
        std::string out;
        {
          Mode q(M_PEEK);
          const dynd::string &d = *reinterpret_cast<const dynd::string *>(n.cdata());
          out.assign(d.data(), d.size());
        }
        if (out != in)
          rt::violation("wrong-text", "format_json gave %zu bytes %s for a string of %zu bytes ending %s", out.size(), out.substr(out.size() < 40 ? 0 : out.size() - 40).c_str(), in.size(), in.substr(in.size() - 40).c_str());
        drop(m);
        drop(n);
        PROBE("a text as long as the buffer");
        break;
      }
      if (!a.set())
        return;
      bool list = r.chance(1, 3);
      if (has(*a.t, TUPLE)) {
        Outcome q = attempt([&] { n = format_json(a.a, list); });
        drop(n);
        if (q.ok && leaves(*a.t, a.p) && !has(*a.t, VAR) && !has(*a.t, FIXED))
          rt::violation("missing-error", "format_json accepted a tuple");
        unchanged();
        return;
      }
      must_do("format_json", [&] { n = format_json(a.a, list); }, unchanged);
      std::string out;
      {
        Mode q(M_PEEK);
        const dynd::string &d = *reinterpret_cast<const dynd::string *>(n.cdata());
        out.assign(d.data(), d.size());
      }
      Verdict v = judge(*a.t, out, want);
      P round = clone(*a.t, a.p);
      rounded(*a.t, round);
      if (!well_formed(out) || v != OK || text(*a.t, want) != text(*a.t, round))
        rt::violation("wrong-text", "format_json gave %s text %s for %s", vnames[v], out.substr(0, 300).c_str(), text(*a.t, round).substr(0, 300).c_str());
      if (a.t->k == STRUCT && (out[0] == '[') != list)
        rt::violation("wrong-text", "format_json wrote a struct as %s", out.substr(0, 100).c_str());
      PROBE("formatted");
      if (o.kind == J_ROUND) {
        nd::array m;
        must_do("parse_json of the formatted text", [&] { m = parse_json(tp_of(a), n, &eval::default_eval_context); }, unchanged);
        auto t = a.t;
        drop(n);
        put(b, m, t, round);
        PROBE("round trip");
      }
      drop(n);
      break;
    }
    case J_KERNEL: {
      T t;
      if (r.chance(1, 4)) {
        t.k = STR;
      } else {
        static const K ks[] = {BOOL, I8, I16, I32, I64, U8, U16, U32, U64};
        t.k = r.pick(ks);
        if (t.k < U8 && r.chance(1, 3)) {
          T op;
          op.k = OPT;
          op.sub.push_back(t);
          t = op;
        }
      }
      P val = gen_value(r, g, t);
      s = to_json(t, val, &r);
      if (t.k == STR)
        s = quoted(r, val->s);
      if (o.a[4])
        damage(r, s);
      s = faulted(s);
      if (t.k != STR) // numbers and words only: the rest has other rules here
        for (char &c : s)
          if (c == '"')
            c = ',';
      own.make(s);
      Verdict v = judge(t, s, want, false, true);
      if (t.k == OPT && v == BAD)
        v = UNKNOWN; // NA, None and nothing at all are missing values here
      if (v == OK && t.k != STR && (s.find('.') != std::string::npos || s.find("-0") != std::string::npos))
        v = UNKNOWN; // integers written as reals, minus zero
      ndt::type tp;
      must_do("making a type", [&] { tp = make(t); });
      if (run("json::parse", t, s, v, [&] { n = nd::json::parse(tp, own.p, own.p + own.n); }) && v == OK) {
        auto st = std::make_shared<T>(t);
        put(b, n, st, want);
        PROBE("parsed by a kernel");
      }
      {
        Mode q(M_SIM);
        tp = ndt::type();
      }
      drop(n);
      break;
    }
    case J_REF:
      if (&a == &b || !a.set())
        break;
      {
        Mode q(M_SIM);
        b.a = a.a;
      }
      b.t = a.t, b.p = a.p, b.frozen = a.frozen;
      break;
    case J_DROP:
      clear(b);
      break;
    }
    if (own.p)
      own.done();
    for (Cell &c : cell[f])
      verify("an array", c);
    for (Cell &c : frozen)
      verify("a shared array", c);
  }
  const ndt::type &tp_of(const Cell &c) {
    for (int i = 0; i < NT; i++)
      if (c.t.get() == types[i].get())
        return tps[i];
    return c.a.get_type();
  }
  void end() override {
    for (auto &row : cell)
      for (Cell &c : row) {
        verify("an array after all threads ended", c);
        clear(c);
      }
    for (Cell &c : frozen) {
      verify("a shared array after all threads ended", c);
      clear(c);
    }
    for (Text &x : texts)
      x.b.done();
    for (int i = 0; i < NT; i++) {
      types[i].reset();
      Mode q(M_SIM);
      tps[i] = ndt::type();
    }
  }
};
Tuning tune() {
  Tuning t;
  t.text = true;
  return t;
}
Register reg("C08", "json", []() -> Scenario * { return new C08; }, tune());
} // namespace
