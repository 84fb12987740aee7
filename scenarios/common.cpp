#include "dynd_sim.h"
#include <dynd/types/base_expr_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>

#include <cxxabi.h>
#include <dynd/exceptions.hpp>

namespace sim {
void describe_exception(std::string &type, std::string &what) {
  type = demangle(abi::__cxa_current_exception_type()->name());
  try {
    throw;
  } catch (const dynd::dynd_exception &e) {
    what = e.what();
  } catch (...) {
  }
}
}
namespace dynd_sim {

void put_int(std::string &o, long long v) { o += std::to_string(v); }
void put_uint(std::string &o, unsigned long long v) { o += std::to_string(v); }
void put_real(std::string &o, double v) {
  char b[64];
  if (std::isnan(v)) {
    o += "nan";
    return;
  }
  snprintf(b, sizeof b, "%.17g", v);
  o += b;
}
void put_str(std::string &o, const char *p, size_t n) {
  o += '"';
  for (size_t i = 0; i < n; i++) {
    unsigned char c = p[i];
    if (c < 32 || c > 126 || c == '"' || c == '\\') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += (char)c;
  }
  o += '"';
}

template <class T> static T rd(const char *p) {
  T v;
  memcpy(&v, p, sizeof v);
  return v;
}
static bool is_na_value(const ndt::type &vt, const char *d) {
  switch (vt.get_id()) {
  case bool_id:
    return rd<uint8_t>(d) == 2;
  case int8_id:
    return rd<int8_t>(d) == INT8_MIN;
  case int16_id:
    return rd<int16_t>(d) == INT16_MIN;
  case int32_id:
    return rd<int32_t>(d) == INT32_MIN;
  case int64_id:
    return rd<int64_t>(d) == INT64_MIN;
  case uint32_id:
    return rd<uint32_t>(d) == UINT32_MAX;
  case uint8_id:
    return rd<uint8_t>(d) == UINT8_MAX;
  case uint16_id:
    return rd<uint16_t>(d) == UINT16_MAX;
  case uint64_id:
    return rd<uint64_t>(d) == UINT64_MAX;
  case float32_id: // the rule of the library: any NaN is NA
    return std::isnan(rd<float>(d));
  case float64_id:
    return std::isnan(rd<double>(d));
  case complex_float32_id:
    return rd<uint32_t>(d) == 0x7f8007a2u && rd<uint32_t>(d + 4) == 0x7f8007a2u;
  case complex_float64_id:
    return rd<uint64_t>(d) == 0x7ff00000000007a2ull && rd<uint64_t>(d + 8) == 0x7ff00000000007a2ull;
  default:
    return false;
  }
}

void dump_to(std::string &o, const ndt::type &tp, const char *meta, const char *data) {
  switch (tp.get_id()) {
  case bool_id: {
    uint8_t v = rd<uint8_t>(data);
    o += v == 0 ? "F" : v == 1 ? "T" : "?bool";
    break;
  }
  case int8_id:
    put_int(o, rd<int8_t>(data));
    break;
  case int16_id:
    put_int(o, rd<int16_t>(data));
    break;
  case int32_id:
    put_int(o, rd<int32_t>(data));
    break;
  case int64_id:
    put_int(o, rd<int64_t>(data));
    break;
  case uint8_id:
    put_uint(o, rd<uint8_t>(data));
    break;
  case uint16_id:
    put_uint(o, rd<uint16_t>(data));
    break;
  case uint32_id:
    put_uint(o, rd<uint32_t>(data));
    break;
  case uint64_id:
    put_uint(o, rd<uint64_t>(data));
    break;
  case float32_id:
    put_real(o, rd<float>(data));
    break;
  case float64_id:
    put_real(o, rd<double>(data));
    break;
  case complex_float32_id:
  case complex_float64_id: {
    bool f = tp.get_id() == complex_float32_id;
    o += '<';
    put_real(o, f ? (double)rd<float>(data) : rd<double>(data));
    o += ';';
    put_real(o, f ? (double)rd<float>(data + 4) : rd<double>(data + 8));
    o += '>';
    break;
  }
  case void_id:
    o += "void";
    break;
  case string_id: {
    const dynd::string &s = *reinterpret_cast<const dynd::string *>(data);
    put_str(o, s.data(), s.size());
    break;
  }
  case bytes_id: {
    const dynd::bytes &s = *reinterpret_cast<const dynd::bytes *>(data);
    o += 'b';
    put_str(o, s.data(), s.size());
    break;
  }
  case fixed_string_id: {
    const ndt::fixed_string_type *ft = tp.extended<ndt::fixed_string_type>();
    size_t n = tp.get_data_size(), k = 0;
    switch (ft->get_encoding()) {
    case string_encoding_utf_16:
      o += "u16";
      put_str(o, data, n);
      break;
    case string_encoding_utf_32:
      o += "u32";
      put_str(o, data, n);
      break;
    default:
      while (k < n && data[k])
        k++;
      put_str(o, data, k);
    }
    break;
  }
  case fixed_bytes_id:
    o += "fb";
    put_str(o, data, tp.get_data_size());
    break;
  case char_id:
    o += "c";
    put_str(o, data, tp.get_data_size());
    break;
  case type_id:
    o += "type";
    break;
  case fixed_dim_id: {
    const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(meta);
    const ndt::type &et = tp.extended<ndt::fixed_dim_type>()->get_element_type();
    o += '[';
    for (intptr_t i = 0; i < ss->dim_size; i++) {
      if (i)
        o += ", ";
      dump_to(o, et, meta + sizeof(size_stride_t), data + i * ss->stride);
    }
    o += ']';
    break;
  }
  case var_dim_id: {
    typedef ndt::var_dim_type::metadata_type M;
    const M *m = reinterpret_cast<const M *>(meta);
    const ndt::var_dim_type::data_type *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(data);
    const ndt::type &et = tp.extended<ndt::var_dim_type>()->get_element_type();
    if (!d->begin && d->size == 0) {
      o += "{}";
      break;
    }
    o += '{';
    for (size_t i = 0; i < d->size; i++) {
      if (i)
        o += ", ";
      dump_to(o, et, meta + sizeof(M), d->begin + m->offset + (intptr_t)i * m->stride);
    }
    o += '}';
    break;
  }
  case tuple_id: {
    const ndt::tuple_type *t = tp.extended<ndt::tuple_type>();
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(meta);
    o += '(';
    for (intptr_t i = 0; i < t->get_field_count(); i++) {
      if (i)
        o += ", ";
      dump_to(o, t->get_field_type(i), meta + t->get_arrmeta_offset(i), data + off[i]);
    }
    o += ')';
    break;
  }
  case struct_id: {
    const ndt::struct_type *t = tp.extended<ndt::struct_type>();
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(meta);
    o += '(';
    for (intptr_t i = 0; i < t->get_field_count(); i++) {
      if (i)
        o += ", ";
      o += t->get_field_name(i);
      o += ": ";
      dump_to(o, t->get_field_type(i), meta + t->get_arrmeta_offset(i), data + off[i]);
    }
    o += ')';
    break;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (is_na_value(vt, data))
      o += "NA";
    else
      dump_to(o, vt, meta, data);
    break;
  }
  case pointer_id: {
    const ndt::pointer_type *t = tp.extended<ndt::pointer_type>();
    const pointer_type_arrmeta *m = reinterpret_cast<const pointer_type_arrmeta *>(meta);
    o += '*';
    dump_to(o, t->get_target_type(), meta + sizeof(pointer_type_arrmeta), rd<char *>(data) + m->offset);
    break;
  }
  case categorical_id: {
    const ndt::categorical_type *t = tp.extended<ndt::categorical_type>();
    uint32_t v = t->get_storage_type().get_id() == uint8_id    ? rd<uint8_t>(data)
                 : t->get_storage_type().get_id() == uint16_id ? rd<uint16_t>(data)
                                                               : rd<uint32_t>(data);
    o += "cat:";
    if (v >= t->get_category_count())
      o += "BAD" + std::to_string(v);
    else
      dump_to(o, t->get_category_type(), t->get_category_arrmeta(), t->get_category_data_from_value(v));
    break;
  }
  default:
    o += "?id" + std::to_string((int)tp.get_id());
  }
}

std::string dump(const nd::array &a) {
  Mode m(M_PEEK);
  std::string o;
  if (a.is_null())
    return "NULL";
  dump_to(o, a.get_type(), a->metadata(), a.cdata());
  return o;
}
std::string dump_host(const nd::array &a) {
  Mode m(M_HOST);
  std::string o;
  if (a.is_null())
    return "NULL";
  dump_to(o, a.get_type(), a->metadata(), a.cdata());
  return o;
}
std::string type_str(const ndt::type &tp) {
  Mode m(M_HOST);
  std::stringstream ss;
  ss << tp;
  return ss.str();
}
void check_dump(const char *cls, const char *what, const nd::array &a, const std::string &want) {
  std::string got = dump(a);
  if (got != want)
    rt::violation(cls, "%s: got %.1500s, has to be %.1500s", what, got.c_str(), want.c_str());
}

void External::release(void *p) {
  uint32_t m = rt::set_mode(M_HOST);
  External *e = (External *)p;
  if (e->freed++)
    rt::violation("double-free-function", "the free function of an external memory block ran %d times", e->freed);
  rt::set_mode(m);
  // a user's free function releases the memory
  free(e->mem);
}
} // namespace dynd_sim
