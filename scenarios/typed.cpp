#include "typed.h"
#include <dynd/types/pointer_type.hpp>
#include <climits>
#include <dynd/types/bytes_type.hpp>

namespace typed {
TYPED_PLAIN void P::hold(V *v) {
  if (v)
    v->refs++;
}
TYPED_PLAIN bool P::drop(V *v) { return --v->refs == 0; }
void P::destroy(V *v) { delete v; }
static const char *const snames[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex[float32]", "complex[float64]"};
T gen_scalar(Rng &r, const Gen &g) {
  T t;
  for (;;) {
    static const K ks[] = {BOOL, I8, I16, I32, I32, I64, U8, U16, U32, U64, F32, F64, F64, STR, STR, STR, BYTES, FSTR, FBYTES, OPT, OPT};
    t.k = r.pick(ks);
    if ((t.k == STR && !g.strings) || (t.k == BYTES && !g.bytes) || (t.k == FBYTES && !g.fbytes) || (t.k == FSTR && !g.fstr) || (t.k == OPT && !g.opts))
      continue;
    break;
  }
  if (t.k == FSTR || t.k == FBYTES)
    t.n = r.range(1, 9);
  if (t.k == OPT) {
    T e;
    static const K ks[] = {BOOL, I8, I16, I32, I64, F64, I32, F64, U8, U16, U32, U64, F32};
    e.k = r.pick(ks);
    t.sub.push_back(e);
  }
  return t;
}
bool pod(const T &t) {
  if (t.k == STR || t.k == BYTES || t.k == VAR)
    return false;
  for (auto &e : t.sub)
    if (!pod(e))
      return false;
  return true;
}
static int cells(const T &t) {
  int n = 0;
  for (auto &e : t.sub)
    n += cells(e);
  return is_scalar(t) ? 1 : t.k == FIXED ? std::min(n * t.n, 100000) : n;
}
bool has(const T &t, K k) {
  if (t.k == k)
    return true;
  for (auto &e : t.sub)
    if (has(e, k))
      return true;
  return false;
}
static T type_of(Rng &r, const Gen &g, int depth) {
  if (depth <= 0)
    return gen_scalar(r, g);
  for (;;) {
    int c = r.below(8);
    T t;
    if (c < 2)
      return gen_scalar(r, g);
    if (c < 4 && g.fixeds) {
      t.k = FIXED;
      t.n = r.chance(1, 8) ? 0 : r.range(1, g.maxdim);
      if (g.longvars && depth <= 2 && r.chance(1, 3)) { // past the sizes in which kernels work through buffers
        t.n = r.range(120, 300);
        depth = 1;
      }
      t.sub.push_back(type_of(r, g, depth - 1));
      if (g.longvars && t.n > 8 && g.recs && r.chance(2, 3)) {
        T rec;
        rec.k = r.chance(1, 2) ? TUPLE : STRUCT;
        int m = r.range(1, 3);
        for (int i = 0; i < m; i++) {
          rec.sub.push_back(gen_scalar(r, g));
          rec.names.push_back(std::string(1, 'a' + i));
        }
        t.sub[0] = rec;
      }
      return t;
    }
    if (c < 6 && c >= 4 && g.vars) {
      t.k = VAR;
      t.sub.push_back(type_of(r, g, depth - 1));
      if (!g.strvars && !pod(t.sub[0]))
        continue;
      return t;
    }
    if (c >= 6 && g.recs) {
      t.k = c == 6 ? TUPLE : STRUCT;
      int n = depth == 1 && r.chance(1, 8) ? r.range(5, 11) : r.range(1, 4);
      for (int i = 0; i < n; i++) {
        t.sub.push_back(type_of(r, g, depth - 1));
        t.names.push_back(std::string(1, 'a' + i) + (r.chance(1, 3) ? "_x" : ""));
      }
      return t;
    }
  }
}
T gen_type(Rng &r, const Gen &g, int depth) {
  for (;;) {
    T t = type_of(r, g, depth);
    if (cells(t) <= 900)
      return t;
  }
}
static long long int_value(Rng &r, K k) {
  if (r.chance(3, 4))
    return r.below(100) - (k <= I64 ? 40 : 0);
  switch (k) {
  case I8:
    return r.pickl({-127, 127, 100});
  case I16:
    return r.pickl({-32767, 32767});
  case I32:
    return r.pickl({-2147483647, 2147483647});
  case I64:
    return r.chance(1, 2) ? 9223372036854775807ll : -9223372036854775807ll;
  case U8:
    return 255;
  case U16:
    return 65535;
  case U32:
    return 4294967295ll;
  default:
    return 9223372036854775807ll;
  }
}
static std::string gen_str(Rng &r, const Gen &g) {
  int n = r.chance(1, 6) ? 0 : r.chance(1, 2) ? r.range(1, 15) : r.chance(1, 4) ? r.range(g.maxlen, 6 * g.maxlen) : r.range(12, g.maxlen);
  std::string s;
  for (int i = 0; i < n; i++)
    if (g.rich && r.chance(1, 8)) {
      static const char *const x[] = {"\"", "\\", "/", "\n", "\t", "\x01", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{", "]", ",", " ", "\b",
                                      "'", "\r", "\f", "\x0b", "\x1f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
      if (r.chance(1, 20))
        s += '\0';
      else
        s += r.pick(x);
    } else
      s += r.chance(1, 40) ? '\0' : (char)('a' + r.below(26));
  return s;
}
// a scalar or a record of scalars
static bool leafy(const T &t) {
  if (t.k == FIXED || t.k == VAR)
    return false;
  for (auto &e : t.sub)
    if (!is_scalar(e))
      return false;
  return true;
}
// the value of an option of unsigned integers that means it is missing
static long long numeric_limits_max(K k) { return k == U8 ? UINT8_MAX : k == U16 ? UINT16_MAX : k == U32 ? UINT32_MAX : k == U64 ? -1ll : LLONG_MIN; }
static P value_of(Rng &r, const Gen &g, const T &t) {
  P p = P(new V());
  p->unset = false;
  switch (t.k) {
  case BOOL:
    p->i = r.below(2);
    break;
  case F32:
  case F64:
    p->d = (r.below(4000) - 2000) / 8.0;
    break;
  case STR:
    p->s = gen_str(r, g);
    break;
  case BYTES: {
    int n = r.chance(1, 2) ? r.range(0, 15) : r.range(14, g.maxlen);
    for (int i = 0; i < n; i++)
      p->s += (char)r.below(256);
    break;
  }
  case FSTR: {
    int n = r.range(0, t.n);
    for (int i = 0; i < n; i++)
      p->s += (char)('a' + r.below(26));
    break;
  }
  case FBYTES:
    for (int i = 0; i < t.n; i++)
      p->s += (char)r.below(256);
    break;
  case OPT:
    p->na = r.chance(1, 3);
    p->v.push_back(value_of(r, g, t.sub[0]));
    while (numeric_limits_max(t.sub[0].k) == p->v[0]->i) // stands for NA
      p->v[0] = value_of(r, g, t.sub[0]);
    break;
  case FIXED:
    for (int i = 0; i < t.n; i++)
      p->v.push_back(value_of(r, g, t.sub[0]));
    break;
  case VAR: {
    int n = g.longvars && r.chance(1, 3) ? r.range(7, 40) : r.range(0, g.maxdim);
    if (g.longvars && leafy(t.sub[0]) && r.chance(1, 8))
      n = r.range(60, 300);
    for (int i = 0; i < n; i++)
      p->v.push_back(value_of(r, g, t.sub[0]));
    break;
  }
  case TUPLE:
  case STRUCT:
    for (auto &e : t.sub)
      p->v.push_back(value_of(r, g, e));
    break;
  default:
    p->i = int_value(r, t.k);
  }
  return p;
}
// nested long dimensions multiply: sizes past the budget are cut down
P gen_value(Rng &r, const Gen &g, const T &t) {
  P p = value_of(r, g, t);
  if (g.longvars && leaves(t, p) > 900) {
    Gen h = g;
    h.longvars = false, h.maxdim = 1;
    p = value_of(r, h, t);
  }
  return p;
}
P blank(const T &t) {
  P p = P(new V());
  if (t.k == FIXED)
    for (int i = 0; i < t.n; i++)
      p->v.push_back(blank(t.sub[0]));
  else if (t.k == OPT || t.k == TUPLE || t.k == STRUCT)
    for (auto &e : t.sub)
      p->v.push_back(blank(e));
  return p;
}
P clone(const T &t, const P &p) {
  P q = P(new V(*p));
  for (size_t i = 0; i < q->v.size(); i++)
    q->v[i] = clone(t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0], q->v[i]);
  return q;
}
void copy_into(const T &t, const P &dst, const P &src) {
  dst->i = src->i, dst->d = src->d, dst->im = src->im, dst->s = src->s, dst->na = src->na;
  if (t.k == VAR && dst->unset) {
    dst->unset = src->unset;
    dst->v.clear();
    for (auto &e : src->v)
      dst->v.push_back(clone(t.sub[0], e));
    return;
  }
  for (size_t i = 0; i < dst->v.size(); i++)
    copy_into(t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0], dst->v[i], src->v[t.k == VAR && src->v.size() == 1 ? 0 : i]);
}
bool same(const T &t, const P &a, const P &b) { return text(t, a) == text(t, b); }
void text_to(std::string &o, const T &t, const P &p) {
  switch (t.k) {
  case BOOL:
    o += p->i ? "T" : "F";
    break;
  case F32:
  case F64:
    put_real(o, p->d);
    break;
  case C64:
  case C128:
    o += '<';
    put_real(o, p->d);
    o += ';';
    put_real(o, p->im);
    o += '>';
    break;
  case STR:
  case FSTR:
    put_str(o, p->s.data(), p->s.size());
    break;
  case BYTES:
    o += 'b';
    put_str(o, p->s.data(), p->s.size());
    break;
  case FBYTES:
    o += "fb";
    put_str(o, p->s.data(), p->s.size());
    break;
  case OPT:
    if (p->na)
      o += "NA";
    else
      text_to(o, t.sub[0], p->v[0]);
    break;
  case FIXED:
  case VAR:
    o += t.k == FIXED ? '[' : '{';
    for (size_t i = 0; i < p->v.size(); i++) {
      if (i)
        o += ", ";
      text_to(o, t.sub[0], p->v[i]);
    }
    o += t.k == FIXED ? ']' : '}';
    break;
  case TUPLE:
  case STRUCT:
    o += '(';
    for (size_t i = 0; i < t.sub.size(); i++) {
      if (i)
        o += ", ";
      if (t.k == STRUCT)
        o += t.names[i] + ": ";
      text_to(o, t.sub[i], p->v[i]);
    }
    o += ')';
    break;
  case U64:
    put_uint(o, (unsigned long long)p->i);
    break;
  default:
    put_int(o, p->i);
  }
}
std::string text(const T &t, const P &p) {
  std::string o;
  text_to(o, t, p);
  return o;
}
std::string ds(const T &t) {
  switch (t.k) {
  case STR:
    return "string";
  case BYTES:
    return "bytes";
  case FSTR:
    return "fixed_string[" + std::to_string(t.n) + "]";
  case FBYTES:
    return "fixed_bytes[" + std::to_string(t.n) + "]";
  case PTR:
    return "pointer[" + ds(t.sub[0]) + "]";
  case OPT:
    return "?" + ds(t.sub[0]);
  case FIXED:
    return std::to_string(t.n) + " * " + ds(t.sub[0]);
  case VAR:
    return "var * " + ds(t.sub[0]);
  case TUPLE: {
    std::string s = "(";
    for (size_t i = 0; i < t.sub.size(); i++)
      s += (i ? ", " : "") + ds(t.sub[i]);
    return s + ")";
  }
  case STRUCT: {
    std::string s = "{";
    for (size_t i = 0; i < t.sub.size(); i++)
      s += (i ? ", " : "") + t.names[i] + ": " + ds(t.sub[i]);
    return s + "}";
  }
  default:
    return snames[t.k];
  }
}
static std::string W(Rng *r) {
  if (!r || !r->chance(1, 6))
    return "";
  static const char *const ws[] = {" ", "  ", "\n", "\t", " \n ", "\r\n"};
  return r->pick(ws);
}
static void jstr(std::string &o, const std::string &s, Rng *r) {
  o += '"';
  for (char c : s)
    if (r && r->chance(1, 12)) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
      o += b;
    } else if (c == '"' || c == '\\')
      o += std::string("\\") + c;
    else if ((unsigned char)c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
      o += b;
    } else
      o += c;
  o += '"';
}
std::string to_json(const T &t, const P &p, Rng *r) {
  std::string o = W(r);
  switch (t.k) {
  case BOOL:
    o += p->i ? "true" : "false";
    break;
  case F32:
  case F64: {
    char b[40];
    if (r && r->chance(1, 4))
      snprintf(b, sizeof b, "%.17e", p->d);
    else
      snprintf(b, sizeof b, "%.17g", p->d);
    o += b;
    break;
  }
  case STR:
  case FSTR:
    jstr(o, p->s, r);
    break;
  case OPT:
    o += p->na ? "null" : to_json(t.sub[0], p->v[0], nullptr);
    break;
  case FIXED:
  case VAR:
    o += '[';
    for (size_t i = 0; i < p->v.size(); i++)
      o += (i ? "," : "") + to_json(t.sub[0], p->v[i], r);
    o += W(r) + "]";
    break;
  case TUPLE:
    o += '[';
    for (size_t i = 0; i < t.sub.size(); i++)
      o += (i ? "," : "") + to_json(t.sub[i], p->v[i], r);
    o += W(r) + "]";
    break;
  case STRUCT: {
    bool list = r && r->chance(1, 4);
    o += list ? '[' : '{';
    std::vector<int> order;
    for (size_t i = 0; i < t.sub.size(); i++)
      order.push_back(i);
    if (r && !list && r->chance(1, 3))
      std::swap(order[0], order[r->below(order.size())]);
    for (size_t i = 0; i < t.sub.size(); i++) {
      o += i ? "," : "";
      if (!list)
        o += W(r) + "\"" + t.names[order[i]] + "\"" + W(r) + ":";
      o += to_json(t.sub[order[i]], p->v[order[i]], r);
    }
    o += W(r) + (list ? ']' : '}');
    break;
  }
  default:
    o += std::to_string(p->i);
  }
  return o + W(r);
}
ndt::type make(const T &t) {
  switch (t.k) {
  case BOOL:
    return ndt::make_type<bool1>();
  case I8:
    return ndt::make_type<int8_t>();
  case I16:
    return ndt::make_type<int16_t>();
  case I32:
    return ndt::make_type<int32_t>();
  case I64:
    return ndt::make_type<int64_t>();
  case U8:
    return ndt::make_type<uint8_t>();
  case U16:
    return ndt::make_type<uint16_t>();
  case U32:
    return ndt::make_type<uint32_t>();
  case U64:
    return ndt::make_type<uint64_t>();
  case F32:
    return ndt::make_type<float>();
  case F64:
    return ndt::make_type<double>();
  case C64:
    return ndt::make_type<dynd::complex<float>>();
  case C128:
    return ndt::make_type<dynd::complex<double>>();
  case STR:
    return ndt::make_type<ndt::string_type>();
  case BYTES:
    return ndt::make_type<ndt::bytes_type>();
  case FSTR:
    return ndt::make_type<ndt::fixed_string_type>(t.n, string_encoding_utf_8);
  case FBYTES:
    return ndt::make_type<ndt::fixed_bytes_type>(t.n, 1);
  case PTR:
    return ndt::make_type<ndt::pointer_type>(make(t.sub[0]));
  case OPT:
    return ndt::make_type<ndt::option_type>(make(t.sub[0]));
  case FIXED:
    return ndt::make_fixed_dim(t.n, make(t.sub[0]));
  case VAR:
    return ndt::make_type<ndt::var_dim_type>(make(t.sub[0]));
  case TUPLE: {
    std::vector<ndt::type> f;
    for (auto &e : t.sub)
      f.push_back(make(e));
    return ndt::make_type<ndt::tuple_type>(f.size(), f.data());
  }
  case STRUCT: {
    std::vector<ndt::type> f;
    std::vector<std::string> n;
    for (auto &e : t.sub)
      f.push_back(make(e));
    return ndt::make_type<ndt::struct_type>(t.names, f);
  }
  }
  abort();
}
template <class X> static void wr(char *d, X x) { memcpy(d, &x, sizeof x); }
void fill(const T &t, const P &p, const char *meta, char *data) {
  switch (t.k) {
  case BOOL:
    wr<uint8_t>(data, p->i);
    break;
  case I8:
  case U8:
    wr<int8_t>(data, p->i);
    break;
  case I16:
  case U16:
    wr<int16_t>(data, p->i);
    break;
  case I32:
  case U32:
    wr<int32_t>(data, p->i);
    break;
  case I64:
  case U64:
    wr<int64_t>(data, p->i);
    break;
  case F32:
    wr<float>(data, p->d);
    break;
  case F64:
    wr<double>(data, p->d);
    break;
  case C64:
    wr<float>(data, p->d);
    wr<float>(data + 4, p->im);
    break;
  case C128:
    wr<double>(data, p->d);
    wr<double>(data + 8, p->im);
    break;
  case STR:
    reinterpret_cast<dynd::string *>(data)->assign(p->s.data(), p->s.size());
    break;
  case BYTES:
    reinterpret_cast<dynd::bytes *>(data)->assign(p->s.data(), p->s.size());
    break;
  case FSTR:
    memset(data, 0, t.n);
    memcpy(data, p->s.data(), p->s.size());
    break;
  case FBYTES:
    memcpy(data, p->s.data(), t.n);
    break;
  case OPT: {
    if (!p->na) {
      fill(t.sub[0], p->v[0], meta, data);
      break;
    }
    switch (t.sub[0].k) {
    case C64:
      wr<uint32_t>(data, 0x7f8007a2u);
      wr<uint32_t>(data + 4, 0x7f8007a2u);
      break;
    case C128:
      wr<uint64_t>(data, 0x7ff00000000007a2ull);
      wr<uint64_t>(data + 8, 0x7ff00000000007a2ull);
      break;
    case BOOL:
      wr<uint8_t>(data, 2);
      break;
    case I8:
      wr<int8_t>(data, INT8_MIN);
      break;
    case I16:
      wr<int16_t>(data, INT16_MIN);
      break;
    case I32:
      wr<int32_t>(data, INT32_MIN);
      break;
    case I64:
      wr<int64_t>(data, INT64_MIN);
      break;
    case U8:
      wr<uint8_t>(data, UINT8_MAX);
      break;
    case U16:
      wr<uint16_t>(data, UINT16_MAX);
      break;
    case U32:
      wr<uint32_t>(data, UINT32_MAX);
      break;
    case U64:
      wr<uint64_t>(data, UINT64_MAX);
      break;
    case F32:
      wr<uint32_t>(data, 0x7f8007a2u);
      break;
    default:
      wr<uint64_t>(data, 0x7ff00000000007a2ull);
    }
    break;
  }
  case FIXED: {
    const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(meta);
    for (int i = 0; i < t.n; i++)
      fill(t.sub[0], p->v[i], meta + sizeof(size_stride_t), data + i * ss->stride);
    break;
  }
  case VAR: {
    typedef ndt::var_dim_type::metadata_type M;
    const M *m = reinterpret_cast<const M *>(meta);
    ndt::var_dim_type::data_type *d = reinterpret_cast<ndt::var_dim_type::data_type *>(data);
    if (!d->begin && !p->unset) {
      d->begin = m->blockref->alloc(p->v.size());
      d->size = p->v.size();
    }
    for (size_t i = 0; i < p->v.size(); i++)
      fill(t.sub[0], p->v[i], meta + sizeof(M), d->begin + m->offset + (intptr_t)i * m->stride);
    break;
  }
  case TUPLE:
  case STRUCT: {
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(meta);
    // arrmeta of the fields follows the offsets
    const char *m = meta + t.sub.size() * sizeof(uintptr_t);
    for (size_t i = 0; i < t.sub.size(); i++) {
      fill(t.sub[i], p->v[i], m, data + off[i]);
      m += make(t.sub[i]).get_arrmeta_size();
    }
    break;
  }
  }
}
void fill(const nd::array &a, const T &t, const P &p) { fill(t, p, a->metadata(), const_cast<char *>(a.cdata())); }
int leaves(const T &t, const P &p) {
  if (is_scalar(t))
    return 1;
  int n = 0;
  for (size_t i = 0; i < p->v.size(); i++)
    n += leaves(t.k == TUPLE || t.k == STRUCT ? t.sub[i] : t.sub[0], p->v[i]);
  return n;
}
} // namespace typed
