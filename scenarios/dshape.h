// Datashape types as a model: a small tree, its canonical text, and the same type built through the constructors.
#pragma once
#include "dynd_sim.h"
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <ostream>
#include <set>

namespace dshape {
namespace {
enum K { NAME, FIXEDN, FIXED, VAR, DIM, TVDIM, ELL, POW, OPT, STRUCT, TUPLE, CALL, TV, TVC, FSTR, FBYTES, BYTES, CHAR, PTR };
struct D {
  K k = NAME;
  std::string name;  // NAME, TVDIM, ELL, TV, TVC, encoding, base of a POW with a name
  std::string exp;   // POW
  long n = 0, m = 1; // sizes; POW: size of the base if name is empty
  std::vector<D> sub; // element, value, fields; CALL: result, positional, keywords
  std::vector<std::string> names;
  int npos = 0;
  bool variadic = false, kwvariadic = false;
};
const char *const builtins[] = {"bool",    "int8",    "int16",  "int32",  "int64", "int128", "uint8",  "uint16", "uint32",  "uint64", "uint128", "float16",
                                "float32", "float64", "float128", "void",  "bytes", "string", "char",   "type",   "Any",     "Scalar", "Bool",    "Int",
                                "UInt",    "Float",   "Complex", "String", "Bytes", "FixedBytes", "FixedString", "Categorical", "State", "array"};
const char *const needs_args[] = {"categorical", "option", "pointer", "fixed_string", "fixed_bytes", "tuple", "struct", "callable", "Fixed", "Dim", "var", "fixed", "memory", "expr", "Expr", "adapt", "cuda_device", "cuda_host"};
template <size_t N> bool in(const char *const (&l)[N], const std::string &s) {
  for (const char *x : l)
    if (s == x)
      return true;
  return false;
}
bool registered(const std::string &s) { return in(builtins, s) || in(needs_args, s); }
bool simple(const std::string &s) {
  if (s.empty() || (s[0] >= '0' && s[0] <= '9'))
    return false;
  for (char c : s)
    if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'))
      return false;
  return true;
}
// ---- canonical text -------------------------------------------------------------------------------------------------
uint32_t next_cp(const std::string &s, size_t &i) {
  unsigned char c = s[i++];
  int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
  uint32_t v = n ? c & (0x3f >> n) : c;
  while (n-- && i < s.size())
    v = v << 6 | (s[i++] & 63);
  return v;
}
std::string field(const std::string &s) {
  if (simple(s))
    return s;
  std::string o = "'";
  for (size_t i = 0; i < s.size();) {
    uint32_t c = next_cp(s, i);
    char b[16];
    if (c == '\b')
      o += "\\b";
    else if (c == '\f')
      o += "\\f";
    else if (c == '\n')
      o += "\\n";
    else if (c == '\r')
      o += "\\r";
    else if (c == '\t')
      o += "\\t";
    else if (c == '\\' || c == '\'')
      o += '\\', o += (char)c;
    else if (c >= 0x20 && c < 0x7f)
      o += (char)c;
    else {
      snprintf(b, sizeof b, c < 0x10000 ? "\\u%04x" : "\\U%08x", c);
      o += b;
    }
  }
  return o + "'";
}
std::string canon(const D &d) {
  auto el = [&] { return canon(d.sub[0]); };
  std::string o;
  switch (d.k) {
  case NAME:
  case TV:
    return d.name;
  case FIXEDN:
    return std::to_string(d.n) + " * " + el();
  case FIXED:
    return "Fixed * " + el();
  case VAR:
    return "var * " + el();
  case DIM:
    return "Dim * " + el();
  case TVDIM:
    return d.name + " * " + el();
  case ELL:
    return d.name + "... * " + el();
  case POW:
    return (d.name.empty() ? std::to_string(d.n) : d.name) + "**" + d.exp + " * " + el();
  case OPT:
    return "?" + el();
  case STRUCT:
    o = "{";
    for (size_t i = 0; i < d.sub.size(); i++)
      o += (i ? ", " : "") + field(d.names[i]) + ": " + canon(d.sub[i]);
    return o + (d.variadic ? d.sub.empty() ? "...}" : ", ...}" : "}");
  case TUPLE:
    o = "(";
    for (size_t i = 0; i < d.sub.size(); i++)
      o += (i ? ", " : "") + canon(d.sub[i]);
    return o + (d.variadic ? d.sub.empty() ? "...)" : ", ...)" : ")");
  case CALL: {
    o = "(";
    bool c = false;
    auto sep = [&] {
      if (c)
        o += ", ";
      c = true;
    };
    for (int i = 0; i < d.npos; i++)
      sep(), o += canon(d.sub[1 + i]);
    if (d.variadic)
      sep(), o += "...";
    for (size_t i = 0; i < d.names.size(); i++)
      sep(), o += field(d.names[i]) + ": " + canon(d.sub[1 + d.npos + i]);
    if (d.kwvariadic)
      sep(), o += "...";
    return o + ") -> " + el();
  }
  case TVC:
    return d.name + "[" + el() + "]";
  case FSTR:
    return "fixed_string[" + std::to_string(d.n) + (d.name == "utf8" ? "" : ", '" + d.name + "'") + "]";
  case FBYTES:
    return "fixed_bytes[" + std::to_string(d.n) + (d.m == 1 ? "" : ", align=" + std::to_string(d.m)) + "]";
  case BYTES:
    return d.m == 1 ? "bytes" : "bytes[align=" + std::to_string(d.m) + "]";
  case CHAR:
    return d.name == "utf32" ? "char" : "char['" + d.name + "']";
  case PTR:
    return "pointer[" + el() + "]";
  }
  return "?";
}
inline D dim(K k, D el, long n = 0, const std::string &name = "") {
  D d;
  d.k = k;
  d.n = n;
  d.name = name;
  d.sub.push_back(std::move(el));
  return d;
}
inline D named(K k, const std::string &n) {
  D d;
  d.k = k;
  d.name = n;
  return d;
}
// ---- the same type through the constructors -------------------------------------------------------------------------
ndt::type build(const D &d);
ndt::type struct_of(const std::vector<std::string> &n, const D *first, bool variadic) {
  std::vector<ndt::type> t;
  for (size_t i = 0; i < n.size(); i++)
    t.push_back(build(first[i]));
  return ndt::make_type<ndt::struct_type>(n, t, variadic);
}
ndt::type tuple_of(size_t n, const D *first, bool variadic) {
  std::vector<ndt::type> t;
  for (size_t i = 0; i < n; i++)
    t.push_back(build(first[i]));
  return ndt::make_type<ndt::tuple_type>(t.size(), t.data(), variadic);
}
string_encoding_t enc(const std::string &s) {
  return s == "utf8" ? string_encoding_utf_8 : s == "ascii" ? string_encoding_ascii : s == "utf16" ? string_encoding_utf_16 : s == "utf32" ? string_encoding_utf_32 : string_encoding_ucs_2;
}
ndt::type build(const D &d) {
  switch (d.k) {
  case NAME: {
    typedef ndt::type (*mk)();
    static const std::pair<const char *, mk> ids[] = {{"bool", [] { return ndt::make_type<bool>(); }}, {"int8", [] { return ndt::make_type<int8_t>(); }}, {"int16", [] { return ndt::make_type<int16_t>(); }},
                                                      {"int32", [] { return ndt::make_type<int32_t>(); }}, {"int64", [] { return ndt::make_type<int64_t>(); }}, {"uint8", [] { return ndt::make_type<uint8_t>(); }},
                                                      {"uint16", [] { return ndt::make_type<uint16_t>(); }}, {"uint32", [] { return ndt::make_type<uint32_t>(); }}, {"uint64", [] { return ndt::make_type<uint64_t>(); }},
                                                      {"float32", [] { return ndt::make_type<float>(); }}, {"float64", [] { return ndt::make_type<double>(); }}, {"void", [] { return ndt::make_type<void>(); }},
                                                      {"complex[float32]", [] { return ndt::make_type<dynd::complex<float>>(); }}, {"complex[float64]", [] { return ndt::make_type<dynd::complex<double>>(); }}};
    for (auto &p : ids)
      if (d.name == p.first)
        return p.second();
    if (d.name == "string")
      return ndt::make_type<ndt::string_type>();
    if (d.name == "bytes")
      return ndt::make_type<ndt::bytes_type>();
    return ndt::type(d.name);
  }
  case FIXEDN:
    return ndt::make_fixed_dim(d.n, build(d.sub[0]));
  case FIXED:
    return ndt::make_type<ndt::fixed_dim_kind_type>(build(d.sub[0]));
  case VAR:
    return ndt::make_type<ndt::var_dim_type>(build(d.sub[0]));
  case DIM: {
    std::string s = canon(d);
    return ndt::type(s);
  }
  case TVDIM:
    return ndt::make_type<ndt::typevar_dim_type>(d.name, build(d.sub[0]));
  case ELL:
    return ndt::make_type<ndt::ellipsis_dim_type>(d.name, build(d.sub[0]));
  case POW: {
    ndt::type v = ndt::make_type<void>();
    ndt::type base = d.name.empty() ? ndt::make_fixed_dim(d.n, v) : d.name == "var" ? ndt::make_type<ndt::var_dim_type>(v) : d.name == "Fixed" ? ndt::make_type<ndt::fixed_dim_kind_type>(v) : ndt::make_type<ndt::typevar_dim_type>(d.name, v);
    return ndt::make_type<ndt::pow_dimsym_type>(base, d.exp, build(d.sub[0]));
  }
  case OPT:
    return ndt::make_type<ndt::option_type>(build(d.sub[0]));
  case STRUCT:
    return struct_of(d.names, d.sub.data(), d.variadic);
  case TUPLE:
    return tuple_of(d.sub.size(), d.sub.data(), d.variadic);
  case CALL: {
    // without keywords, a variadic function is variadic in its keywords too
    ndt::type pos = tuple_of(d.npos, d.sub.data() + 1, d.variadic);
    ndt::type kw = struct_of(d.names, d.sub.data() + 1 + d.npos, d.names.empty() ? d.variadic : d.kwvariadic);
    return ndt::make_type<ndt::callable_type>(build(d.sub[0]), pos, kw);
  }
  case TV:
    return ndt::make_type<ndt::typevar_type>(d.name);
  case TVC:
    return ndt::make_type<ndt::typevar_constructed_type>(d.name, build(d.sub[0]));
  case FSTR:
    return ndt::make_type<ndt::fixed_string_type>(d.n, enc(d.name));
  case FBYTES:
    return ndt::make_type<ndt::fixed_bytes_type>(d.n, d.m);
  case BYTES:
    return ndt::make_type<ndt::bytes_type>(d.m);
  case CHAR:
    return ndt::make_type<ndt::char_type>(enc(d.name));
  case PTR:
    return ndt::make_type<ndt::pointer_type>(build(d.sub[0]));
  }
  return ndt::type();
}
// size and alignment as C++ lays the value out; false: the type has no data, or is not covered
bool layout(const D &d, size_t &size, size_t &align) {
  switch (d.k) {
  case NAME: {
    static const std::pair<const char *, std::pair<int, int>> l[] = {{"bool", {1, 1}}, {"int8", {1, 1}}, {"int16", {2, 2}}, {"int32", {4, 4}}, {"int64", {8, 8}}, {"uint8", {1, 1}}, {"uint16", {2, 2}}, {"uint32", {4, 4}}, {"uint64", {8, 8}},
                                                                     {"float32", {4, 4}}, {"float64", {8, 8}}, {"complex[float32]", {8, 4}}, {"complex[float64]", {16, 8}}, {"string", {sizeof(dynd::string), alignof(dynd::string)}}, {"bytes", {sizeof(dynd::bytes), alignof(dynd::bytes)}}, {"type", {8, 8}}, {"char", {4, 4}}};
    for (auto &p : l)
      if (d.name == p.first) {
        size = p.second.first, align = p.second.second;
        return true;
      }
    return false;
  }
  case FIXEDN:
    if (!layout(d.sub[0], size, align) || size * d.n > 100000000)
      return false;
    size *= d.n;
    return true;
  case VAR:
    if (!layout(d.sub[0], size, align))
      return false;
    size = 16, align = 8;
    return true;
  case OPT:
    return layout(d.sub[0], size, align);
  case TUPLE:
  case STRUCT: {
    if (d.variadic)
      return false;
    size_t s = 0, a = 1;
    for (const D &x : d.sub) {
      if (!layout(x, size, align))
        return false;
      s = (s + align - 1) / align * align + size;
      a = std::max(a, align);
    }
    size = (s + a - 1) / a * a, align = a;
    return true;
  }
  case FSTR:
    align = d.name == "utf8" || d.name == "ascii" ? 1 : d.name == "utf32" ? 4 : 2;
    size = align * d.n;
    return true;
  case FBYTES:
    size = d.n, align = d.m;
    return true;
  case BYTES:
    size = sizeof(dynd::bytes), align = alignof(dynd::bytes);
    return true;
  default:
    return false;
  }
}
} // namespace
} // namespace dshape
