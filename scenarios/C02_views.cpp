// C02: views alias exactly the elements they select.  A strided model (offset, shape, strides over a plain vector)
// is kept next to every array; writing through one view is visible through all others; external owners are
// released exactly once, after the last view.
#include "dynd_sim.h"
#include <dynd/assignment.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/view.hpp>

namespace {
enum { V_NEW, V_EXT, V_INDEX, V_PERM, V_ROT, V_TRANS, V_NEWAXIS, V_SET, V_SETARR, V_COPYREF, V_DROP, V_EVALCOPY, V_RESHAPE, V_UNSIGNED, V_BADINDEX,
       V_BADPERM, V_ITER, V_LIKE, V_CONCAT, V_COPYTO, V_TYPED, V_BYTES, V_REPLACE, V_VAR, NK };
const char *const names[] = {"new", "new_external", "index", "permute", "rotate", "transpose", "new_axis", "set_scalar", "set_array", "copy_ref", "drop",
                             "eval_copy", "reshape", "view_unsigned", "bad_index", "bad_permutation", "iterate", "empty_like", "concatenate", "assign_view", "typed_view", "view_bytes", "replace_dtype", "view_var"};
static const char *const odd[] = {"int64", "int16", "string", "{x: int32, y: int32}", "float64", "?int64"};
void drop_type(ndt::type &t) {
  Mode m(M_SIM);
  t = ndt::type();
}
enum { NP = 5, MAXB = 96, NFROZEN = 3 };

struct Buf {
  std::vector<int> d;
  bool frozen = false;
  External ext;
  bool external = false;
};
struct View {
  nd::array a;
  int buf = -1;
  long off = 0;
  std::vector<long> dim, str;
  bool isuns = false;
};

struct C02 : Scenario {
  View cell[rt::MAXF][NP];
  View frozen[NFROZEN];
  Buf *buf[MAXB];
  int nb = 0;
  int nf = 1;
  Rng dummy{1};

  void generate(Rng &r, Plan &p) override {
    p.nf = r.chance(1, 4) ? 1 : r.range(2, 4);
    int n = r.range(8, 30);
    static const int mix[] = {V_NEW, V_NEW, V_NEW, V_EXT, V_EXT, V_INDEX, V_INDEX, V_INDEX, V_INDEX, V_INDEX, V_PERM, V_PERM, V_ROT, V_TRANS,
                              V_NEWAXIS, V_SET, V_SET, V_SETARR, V_SETARR, V_COPYREF, V_DROP, V_DROP, V_EVALCOPY, V_RESHAPE, V_UNSIGNED, V_BADINDEX,
                              V_BADPERM, V_ITER, V_LIKE, V_CONCAT, V_COPYTO, V_TYPED, V_TYPED, V_BYTES, V_REPLACE, V_VAR};
    for (int i = 0; i < n; i++)
      p.add(r.range(1, p.nf), r.pick(mix), r.below(NP), r.below(NP + NFROZEN), r.below(30000), r.below(30000), r.below(1000), r.below(4));
    p.params[0] = r.below(2);
    p.params[1] = r.range(1, 4);
  }
  std::string show(const Plan &, const Op &o) override {
    return fmt("%s %d from %d r=%d,%d v=%d k=%d", names[o.kind % NK], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
  }
  const char *opname(const Op &o) override { return names[o.kind % NK]; }

  void text_rec(std::string &o, const View &v, size_t d, long off) {
    if (d == v.dim.size()) {
      int x = buf[v.buf]->d[off];
      if (v.isuns)
        put_uint(o, (unsigned)x);
      else
        put_int(o, x);
      return;
    }
    o += '[';
    for (long i = 0; i < v.dim[d]; i++) {
      if (i)
        o += ", ";
      text_rec(o, v, d + 1, off + i * v.str[d]);
    }
    o += ']';
  }
  std::string text(const View &v) {
    if (v.buf < 0)
      return "NULL";
    std::string o;
    text_rec(o, v, 0, v.off);
    return o;
  }
  void verify(const char *what, const View &v) {
    if (v.buf >= 0 && buf[v.buf]->external && buf[v.buf]->ext.freed)
      rt::violation("freed-too-early", "the owner of external memory was freed while %s still refers to it", what);
    check_dump("wrong-contents", what, v.a, text(v));
  }
  void verify_all(const char *what, int f) {
    for (View &v : cell[f])
      verify(what, v);
  }
  int new_buf(size_t n) {
    if (nb >= MAXB)
      return -1;
    buf[nb] = new Buf;
    buf[nb]->d.assign(n, 0);
    return nb++;
  }
  void put(View &dst, nd::array &t, const View &m) {
    {
      Mode q(M_SIM);
      dst.a = std::move(t);
    }
    dst.buf = m.buf, dst.off = m.off, dst.dim = m.dim, dst.str = m.str, dst.isuns = m.isuns;
  }
  static void cstrides(View &v) {
    v.str.assign(v.dim.size(), 1);
    for (int i = (int)v.dim.size() - 2; i >= 0; i--)
      v.str[i] = v.str[i + 1] * v.dim[i + 1];
  }
  // a fresh array may keep the order of the dimensions its source has in memory: its strides are any dense order of them
  static void layout_of(View &v, const nd::array &x) {
    cstrides(v);
    if (count(v) < 2)
      return;
    Mode h(M_QUIET);
    std::vector<intptr_t> st = x.get_strides();
    std::vector<std::pair<long, long>> order;
    for (size_t i = 0; i < v.dim.size(); i++)
      if (v.dim[i] != 1) {
        v.str[i] = st[i] / 4;
        order.push_back({v.str[i], v.dim[i]});
      }
    std::sort(order.begin(), order.end());
    long e = 1;
    for (auto &o : order) {
      if (o.first != e)
        rt::violation("wrong-layout", "the dimensions of a new array do not fill its memory: a step of %ld elements instead of %ld", o.first, e);
      e *= o.second;
    }
  }
  static long count(const View &v) {
    long n = 1;
    for (long d : v.dim)
      n *= d;
    return n;
  }
  // a new base array with 0..3 dimensions
  bool make_base(View &dst, int r, int val, bool external) {
    View m;
    int nd_ = external ? 1 + r % 2 : r % 4;
    for (int i = 0; i < nd_; i++)
      m.dim.push_back(1 + (r / (7 << (2 * i))) % 4);
    cstrides(m);
    long n = count(m);
    m.buf = new_buf(n);
    if (m.buf < 0)
      return false;
    Buf &b = *buf[m.buf];
    for (long i = 0; i < n; i++)
      b.d[i] = val + (int)i;
    nd::array t;
    if (!external) {
      must_do("creating an array", [&] {
        if (nd_ == 0)
          t = nd::empty(ndt::make_type<int>());
        else if (nd_ == 1)
          t = nd::empty(m.dim[0], ndt::make_type<int>());
        else if (nd_ == 2)
          t = nd::empty(m.dim[0], m.dim[1], ndt::make_type<int>());
        else
          t = nd::empty(m.dim[0], m.dim[1], m.dim[2], ndt::make_type<int>());
      });
      Mode q(M_QUIET);
      int *p = reinterpret_cast<int *>(t.data());
      for (long i = 0; i < n; i++)
        p[i] = b.d[i];
    } else {
      b.external = true;
      External &x = b.ext;
      x.size = n * sizeof(int);
      {
        Mode q(M_QUIET);
        x.mem = (char *)malloc(x.size);
        for (long i = 0; i < n; i++)
          ((int *)x.mem)[i] = b.d[i];
      }
      bool owner = false;
      bool ok = expect_ok("wrapping external memory", [&] {
        nd::memory_block ob = nd::make_memory_block<nd::external_memory_block>((void *)&x, &External::release);
        owner = true;
        ndt::type tp = nd_ == 1 ? ndt::make_fixed_dim(m.dim[0], ndt::make_type<int>())
                                : ndt::make_fixed_dim(m.dim[0], ndt::make_fixed_dim(m.dim[1], ndt::make_type<int>()));
        t = nd::make_array(tp, x.mem, ob, nd::readwrite_access_flags);
        t.get_type()->arrmeta_default_construct(t->metadata(), true);
      });
      if (!ok) {
        if (owner && x.freed != 1)
          rt::violation("owner-lost", "wrapping external memory failed and the free function ran %d times", x.freed);
        if (!owner) {
          Mode q(M_QUIET);
          free(x.mem);
          x.freed = 1;
        }
        {
          Mode q(M_SIM);
          t = nd::array();
        }
        return false;
      }
      PROBE("external");
    }
    put(dst, t, m);
    return true;
  }

  void begin(const Plan &p) override {
    nf = p.nf;
    nb = 0;
    for (int i = 0; i < NFROZEN; i++) {
      make_base(frozen[i], 7 * 31 * (i + 1) + (i + 1), 1000 * (i + 1), i == 1);
      buf[frozen[i].buf]->frozen = true;
    }
    if (p.params[0]) {
      // one array, of which every thread owns a row
      View base;
      int k = p.params[1];
      base.dim = {rt::MAXF, k};
      cstrides(base);
      base.buf = new_buf(rt::MAXF * k);
      nd::array t;
      must_do("creating an array", [&] { t = nd::empty(rt::MAXF, k, ndt::make_type<int>()); });
      {
        Mode q(M_QUIET);
        for (int i = 0; i < rt::MAXF * k; i++)
          reinterpret_cast<int *>(t.data())[i] = buf[base.buf]->d[i] = 50 + i;
      }
      for (int f = 1; f < rt::MAXF; f++) {
        nd::array row;
        must_do("taking a row", [&] { row = t(f); });
        View m;
        m.buf = base.buf, m.off = f * k, m.dim = {k}, m.str = {1};
        put(cell[f][0], row, m);
      }
      drop_quiet(t);
      PROBE("threads own rows of one array");
    }
  }
  void check_neighbours(int f) {
    for (View &v : cell[f])
      verify("an array after another operation", v);
  }
  void write_model(const View &v, size_t d, long off, const View *src, long soff, int val) {
    if (d == v.dim.size()) {
      buf[v.buf]->d[off] = src ? buf[src->buf]->d[soff] : val;
      return;
    }
    for (long i = 0; i < v.dim[d]; i++) {
      long so = soff;
      if (src) {
        int sd = (int)d - (int)(v.dim.size() - src->dim.size());
        if (sd >= 0 && src->dim[sd] != 1)
          so += i * src->str[sd];
      }
      write_model(v, d + 1, off + i * v.str[d], src, so, val);
    }
  }
  void exec(const Op &o, int) override {
    int f = o.fiber;
    View &b = cell[f][o.a[0] % NP];
    View &a = o.a[1] % (NP + NFROZEN) < NP ? cell[f][o.a[1] % (NP + NFROZEN)] : frozen[o.a[1] % (NP + NFROZEN) - NP];
    Rng r(((uint64_t)(unsigned short)o.a[2] << 16) ^ (unsigned short)o.a[3]);
    int val = o.a[4];
    if (o.kind != V_NEW && o.kind != V_EXT && a.buf < 0)
      return;
    std::string before = text(a);
    auto unchanged = [&] {
      if (a.buf >= 0)
        check_dump("changed-by-failure", "the operand of a failed operation", a.a, before);
    };
    nd::array t;
    View m;
    m.buf = a.buf, m.off = a.off, m.dim = a.dim, m.str = a.str, m.isuns = a.isuns;
    switch (o.kind) {
    case V_NEW:
      make_base(b, o.a[2], val, false);
      break;
    case V_EXT:
      make_base(b, o.a[2], val, true);
      break;
    case V_INDEX: {
      int n = a.dim.empty() ? 0 : r.range(1, (int)a.dim.size());
      irange ix[4];
      View w;
      w.buf = a.buf, w.off = a.off, w.isuns = a.isuns;
      for (int d = 0; d < n; d++) {
        long N = a.dim[d];
        int kind = r.below(10);
        if (N == 0)
          kind = 0;
        if (kind == 0) {
          ix[d] = irange();
          w.dim.push_back(N), w.str.push_back(a.str[d]);
        } else if (kind < 4) {
          long i = r.below((int)N);
          ix[d] = irange(r.chance(1, 3) ? i - N : i);
          w.off += i * a.str[d];
        } else if (kind < 8) {
          long lo = r.below((int)N), hi = r.range(0, (int)N + 2), st = r.range(1, 3);
          long h = hi > N ? N : hi;
          long c = h > lo ? (h - lo + st - 1) / st : 0;
          // negative bounds count from the end
          ix[d] = irange(r.chance(1, 4) ? lo - N : lo, hi < N && r.chance(1, 4) ? hi - N : hi, st);
          w.dim.push_back(c), w.str.push_back(a.str[d] * (c ? st : 1));
          w.off += c ? lo * a.str[d] : 0;
          if (!c)
            PROBE("empty slice");
        } else {
          long hi = r.below((int)N), st = r.range(1, 3);
          bool all = r.chance(1, 2);
          long lo = all ? -1 : r.below((int)N);
          long c = hi > lo ? (hi - lo + st - 1) / st : 0;
          ix[d] = irange(hi, all ? std::numeric_limits<intptr_t>::max() : lo, -st);
          w.dim.push_back(c), w.str.push_back(a.str[d] * (c ? -st : 1));
          w.off += c ? hi * a.str[d] : 0;
          PROBE("negative step");
        }
      }
      for (size_t d = n; d < a.dim.size(); d++)
        w.dim.push_back(a.dim[d]), w.str.push_back(a.str[d]);
      must_do("indexing", [&] { t = a.a.at_array(n, ix); }, unchanged);
      put(b, t, w);
      break;
    }
    case V_BADINDEX: {
      irange ix[5];
      int n = (int)a.dim.size();
      if (r.chance(1, 3) || n == 0) {
        for (int d = 0; d <= n; d++)
          ix[d] = irange();
        must_fail("indexing with too many indices", [&] { t = a.a.at_array(n + 1, ix); });
      } else {
        int d = r.below(n);
        ix[d] = irange(r.chance(1, 2) ? a.dim[d] + r.below(3) : -a.dim[d] - 1 - r.below(3));
        must_fail("indexing out of range", [&] { t = a.a.at_array(n, ix); });
      }
      PROBE("bad index");
      unchanged();
      return;
    }
    case V_PERM:
    case V_TRANS:
    case V_ROT: {
      int n = (int)a.dim.size();
      if (n == 0)
        break;
      intptr_t ax[4] = {0, 1, 2, 3};
      View w = View();
      w.buf = a.buf, w.off = a.off, w.isuns = a.isuns;
      int k = n;
      if (o.kind == V_PERM) {
        k = r.range(1, n);
        for (int i = k - 1; i > 0; i--)
          std::swap(ax[i], ax[r.below(i + 1)]);
        must_do("permuting", [&] { t = a.a.permute(k, ax); }, unchanged);
      } else if (o.kind == V_TRANS) {
        for (int i = 0; i < n; i++)
          ax[i] = n - 1 - i;
        must_do("transposing", [&] { t = a.a.transpose(); }, unchanged);
      } else {
        int to = r.below(n), from = r.below(n);
        std::vector<int> order;
        for (int i = 0; i < n; i++)
          order.push_back(i);
        order.erase(order.begin() + from);
        order.insert(order.begin() + to, from);
        for (int i = 0; i < n; i++)
          ax[i] = order[i];
        must_do("rotating", [&] { t = a.a.rotate(to, from); }, unchanged);
      }
      for (int i = 0; i < n; i++)
        w.dim.push_back(a.dim[i < k ? ax[i] : i]), w.str.push_back(a.str[i < k ? ax[i] : i]);
      put(b, t, w);
      PROBE("permuted");
      break;
    }
    case V_BADPERM: {
      int n = (int)a.dim.size();
      if (n == 0)
        return;
      intptr_t ax[5] = {0, 1, 2, 3, 4};
      int k = r.below(3);
      if (k == 0)
        must_fail("permuting more axes than there are", [&] { t = a.a.permute(n + 1, ax); });
      else {
        ax[r.below(n)] = k == 1 ? n + r.below(3) : -1;
        must_fail("permuting with an axis out of range", [&] { t = a.a.permute(n, ax); });
      }
      unchanged();
      return;
    }
    case V_NEWAXIS: {
      int n = (int)a.dim.size();
      if (n > 3)
        break;
      int i = r.below(n + 1);
      int k = n < 3 ? r.range(1, 2) : 1;
      must_do("adding an axis", [&] { t = k == 1 ? a.a.new_axis(i) : a.a.new_axis(i, k); }, unchanged);
      m.dim.insert(m.dim.begin() + i, k, 1);
      m.str.insert(m.str.begin() + i, k, 0);
      put(b, t, m);
      break;
    }
    case V_SET: {
      if (buf[a.buf]->frozen)
        break;
      // a failed assignment must not have written anything
      must_do("assigning a scalar", [&] { a.a.assign(nd::array(val)); }, unchanged);
      write_model(a, 0, a.off, nullptr, 0, val);
      PROBE("written through a view");
      break;
    }
    case V_SETARR: {
      if (buf[a.buf]->frozen)
        break;
      // a fresh array of the trailing dimensions, some of them of size one
      View s;
      int k = r.range(0, (int)a.dim.size());
      for (size_t d = a.dim.size() - k; d < a.dim.size(); d++)
        s.dim.push_back(r.chance(1, 4) ? 1 : a.dim[d]);
      cstrides(s);
      long n = count(s);
      s.buf = new_buf(n ? n : 1);
      if (s.buf < 0)
        break;
      for (long i = 0; i < n; i++)
        buf[s.buf]->d[i] = val + 3 * (int)i;
      nd::array src;
      must_do("creating an array", [&] {
        if (k == 0)
          src = nd::empty(ndt::make_type<int>());
        else {
          intptr_t sh[4];
          for (int i = 0; i < k; i++)
            sh[i] = s.dim[i];
          src = nd::dtyped_empty(k, sh, ndt::make_type<int>());
        }
      });
      {
        Mode q(M_QUIET);
        for (long i = 0; i < n; i++)
          reinterpret_cast<int *>(src.data())[i] = buf[s.buf]->d[i];
      }
      must_do("assigning an array", [&] { a.a.assign(src); }, unchanged);
      write_model(a, 0, a.off, &s, 0, 0);
      drop(src);
      break;
    }
    case V_COPYTO: {
      // assign one view to another of the same shape in different memory
      if (b.buf < 0 || b.buf == a.buf || buf[b.buf]->frozen || b.dim != a.dim || a.isuns != b.isuns)
        break;
      std::string bb = text(b);
      must_do("assigning a view", [&] { b.a.assign(a.a); }, [&] { check_dump("changed-by-failure", "the target of a failed assignment", b.a, bb); });
      write_model(b, 0, b.off, &a, a.off, 0);
      PROBE("view assigned to view");
      break;
    }
    case V_COPYREF: {
      if (&a == &b)
        break;
      {
        Mode q(M_SIM);
        b.a = a.a;
      }
      b.buf = a.buf, b.off = a.off, b.dim = a.dim, b.str = a.str, b.isuns = a.isuns;
      break;
    }
    case V_DROP: {
      drop(b.a);
      b = View();
      break;
    }
    case V_EVALCOPY:
    case V_LIKE: {
      int nbuf = new_buf(std::max<long>(count(a), 1));
      if (nbuf < 0)
        break;
      if (o.kind == V_EVALCOPY)
        must_do("eval_copy", [&] { t = a.a.eval_copy(); }, unchanged);
      else {
        must_do("empty_like", [&] { t = nd::empty_like(a.a); }, unchanged);
        Outcome oc;
        must_do("assigning", [&] { t.assign(a.a); }, unchanged);
      }
      // the copy is a fresh array: contents in logical order, no aliasing
      View w;
      w.buf = nbuf, w.dim = a.dim, w.isuns = a.isuns;
      layout_of(w, t);
      write_model(w, 0, 0, &a, a.off, 0);
      put(b, t, w);
      break;
    }
    case V_CONCAT: {
      if (a.dim.size() != 1 || a.isuns)
        break;
      long n = a.dim[0];
      int nbuf = new_buf(2 * n + 1);
      if (nbuf < 0)
        break;
      must_do("concatenating", [&] { t = nd::concatenate(a.a, a.a); }, unchanged);
      View w;
      w.buf = nbuf, w.dim = {2 * n}, w.str = {1};
      for (long i = 0; i < 2 * n; i++)
        buf[nbuf]->d[i] = buf[a.buf]->d[a.off + (i % n) * a.str[0]];
      put(b, t, w);
      break;
    }
    case V_RESHAPE: {
      long n = count(a);
      bool contig = true;
      long e = 1;
      for (int d = (int)a.dim.size() - 1; d >= 0; d--) {
        contig &= a.dim[d] == 1 || a.str[d] == e;
        e *= a.dim[d];
      }
      if (n == 0)
        break;
      intptr_t sh[2] = {n, 1};
      for (int k = r.range(1, 4); k >= 1; k--)
        if (n % k == 0) {
          sh[0] = n / k, sh[1] = k;
          break;
        }
      int k = sh[1] == 1 ? 1 : 2;
      must_do("reshaping", [&] { t = nd::reshape(a.a, k, sh); }, unchanged);
      View w;
      w.isuns = a.isuns;
      w.dim.assign(sh, sh + k);
      cstrides(w);
      if (contig) {
        w.buf = a.buf, w.off = a.off;
      } else {
        int nbuf = new_buf(n);
        if (nbuf < 0) {
          drop(t);
          break;
        }
        View lin;
        lin.buf = nbuf, lin.dim = a.dim;
        cstrides(lin);
        write_model(lin, 0, 0, &a, a.off, 0);
        w.buf = nbuf, w.off = 0;
        PROBE("reshape of a non-contiguous view");
      }
      put(b, t, w);
      break;
    }
    case V_UNSIGNED: {
      // same layout, other scalar type
      must_do("viewing as another type", [&] { t = a.a.view_scalars(ndt::make_type<unsigned>()); }, unchanged);
      m.isuns = true;
      put(b, t, m);
      break;
    }
    case V_TYPED: {
      // the same elements under another type
      bool uns = r.chance(1, 2), bad = r.chance(1, 4), symbolic = r.chance(1, 3);
      View w = m;
      w.isuns = uns;
      const char *el = bad && r.chance(1, 3) ? r.pick(odd) : uns ? "uint32" : "int32";
      bool same_el = !strcmp(el, "int32") || !strcmp(el, "uint32");
      std::vector<long> dim = a.dim;
      bool other = !same_el;
      if (bad && same_el) {
        if (!dim.empty() && r.chance(1, 2)) {
          int d = r.below((int)dim.size());
          dim[d] += dim[d] > 0 && r.chance(1, 2) ? -1 : r.chance(1, 2) ? 1 : 3;
          symbolic = false;
        } else if (!dim.empty() && r.chance(1, 2))
          dim.pop_back();
        else
          dim.push_back(1);
        other = true;
      }
      nd::array src;
      ndt::type tp;
      std::string s;
      {
        Mode q(M_HOST);
        for (long d : dim)
          s += symbolic && r.chance(1, 2) ? std::string("Fixed * ") : std::to_string(d) + " * ";
        s += el;
      }
      must_do("the type of a view", [&] { tp = ndt::type(s); });
      if (other) {
        must_fail("viewing as a type that does not fit", [&] { t = nd::old_view(a.a, tp); });
        PROBE("unsuitable view");
      } else {
        must_do("viewing as a type", [&] { t = nd::old_view(a.a, tp); }, unchanged);
        if (a.isuns == uns && s.find("Fixed") == s.npos && t.get() != a.a.get())
          rt::violation("copied", "viewing an array as its own type gives another one");
        put(b, t, w);
        PROBE("viewed as a type");
        if (r.chance(1, 3)) { // as bytes aligned to 1, and back: only as aligned as they are
          nd::array u, x;
          ndt::type raw, back;
          int align = 1 << r.below(3);
          must_do("the type of a view", [&] {
            raw = ndt::make_type<ndt::fixed_bytes_type>(4, align), back = ndt::type("int32");
            for (size_t d = dim.size(); d-- > 0;)
              raw = ndt::make_fixed_dim(dim[d], raw), back = ndt::make_fixed_dim(dim[d], back);
          });
          must_do("viewing as bytes", [&] { u = nd::old_view(b.a, raw); });
          if (align < 4)
            must_fail("viewing as a type of higher alignment", [&] { x = nd::old_view(u, back); });
          else {
            View z = b;
            z.isuns = false;
            must_do("viewing as a type again", [&] { x = nd::old_view(u, back); });
            check_dump("wrong-contents", "a view as bytes and back", x, text(z));
          }
          PROBE("viewed as bytes and back");
          drop(u), drop(x), drop_type(raw), drop_type(back);
        }
        if (r.chance(1, 12)) { // memory that is owned is not plain bytes
          nd::array u, x;
          ndt::type raw;
          int align = r.chance(1, 2) ? 8 : 1;
          must_do("the type of a view", [&] { raw = ndt::make_fixed_dim(2, ndt::make_type<ndt::fixed_bytes_type>(16, align)); });
          must_do("nd::empty", [&] { u = nd::empty(2, ndt::make_type<ndt::string_type>()); });
          must_fail("viewing strings as bytes", [&] { x = nd::old_view(u, raw); });
          drop(u), drop(x), drop_type(raw);
        }
      }
      drop_type(tp);
      break;
    }
    case V_REPLACE: {
      bool bad = r.chance(1, 4);
      int k = bad ? 0 : r.below((int)a.dim.size() + 1);
      ndt::type tp;
      std::string s;
      {
        Mode q(M_HOST);
        for (size_t d = a.dim.size() - k; d < a.dim.size(); d++)
          s += std::to_string(a.dim[d]) + " * ";
        s += bad ? r.pick(odd) : "uint32";
      }
      must_do("the type of a view", [&] { tp = ndt::type(s); });
      if (bad) {
        must_fail("replacing elements by ones of another size", [&] { t = a.a.replace_dtype(tp, k); });
        PROBE("unsuitable view");
      } else {
        must_do("replacing the type of the elements", [&] { t = a.a.replace_dtype(tp, k); }, unchanged);
        m.isuns = true;
        put(b, t, m);
      }
      drop_type(tp);
      break;
    }
    case V_BYTES: {
      // packed elements as smaller or larger ones
      if (a.dim.size() != 1 || a.dim[0] < 2 || a.str[0] != 1)
        break;
      long n = a.dim[0];
      static const char *const tps[] = {"uint8", "uint16", "int64", "uint64", "3 * uint8"};
      int which = r.below(4);
      size_t sz = which == 0 ? 1 : which == 1 ? 2 : 8;
      ndt::type tp;
      must_do("the type of a view", [&] { tp = ndt::type(std::string(tps[which])); });
      bool fits = n * 4 % sz == 0, aligned;
      {
        Mode q(M_QUIET);
        aligned = (uintptr_t)a.a.cdata() % sz == 0;
      }
      if (!fits || !aligned) {
        must_fail("viewing as elements that do not fit", [&] { t = a.a.view_scalars(tp); });
        drop_type(tp);
        unchanged();
        PROBE("unsuitable view");
        return;
      }
      must_do("viewing as bytes", [&] { t = a.a.view_scalars(tp); }, unchanged);
      std::vector<unsigned char> raw;
      std::string want = "[";
      auto load = [&] {
        raw.resize(n * 4);
        for (long i = 0; i < n; i++)
          memcpy(&raw[i * 4], &buf[a.buf]->d[a.off + i], 4);
        want = "[";
        for (size_t i = 0; i < raw.size(); i += sz) {
          if (i)
            want += ", ";
          unsigned long long x = 0;
          memcpy(&x, &raw[i], sz);
          if (which == 2)
            put_int(want, (long long)x);
          else
            put_uint(want, x);
        }
        want += "]";
      };
      load();
      check_dump("wrong-contents", "a view of other elements", t, want);
      if (!buf[a.buf]->frozen) {
        long at = r.below((int)(raw.size() / sz));
        must_do("writing through a view of other elements", [&] { t(at).assign(nd::array(val % 200)); });
        unsigned long long x = val % 200;
        memcpy(&raw[at * sz], &x, sz);
        for (long i = 0; i < n; i++)
          memcpy(&buf[a.buf]->d[a.off + i], &raw[i * 4], 4);
        load();
        check_dump("wrong-contents", "a view of other elements, written to", t, want);
        PROBE("written as other elements");
      }
      drop(t);
      drop_type(tp);
      break;
    }
    case V_VAR: {
      // a var dimension as a fixed one: the view keeps the elements
      long n = r.range(1, 5), k = r.chance(1, 3) ? r.range(1, 3) : 0;
      nd::array v;
      ndt::type tp, wrong;
      std::string in, s, s2;
      View w;
      w.buf = new_buf(n * (k ? k : 1));
      if (w.buf < 0)
        break;
      w.dim = {n};
      if (k)
        w.dim.push_back(k);
      cstrides(w);
      for (long i = 0; i < n * (k ? k : 1); i++)
        buf[w.buf]->d[i] = val + 5 * (int)i;
      {
        Mode q(M_HOST);
        std::string rest = k ? std::to_string(k) + " * int32" : "int32";
        in = "var * " + rest, s = std::to_string(n) + " * " + rest, s2 = std::to_string(n + 1) + " * " + rest;
      }
      must_do("the types of a view", [&] {
        tp = ndt::type(s);
        wrong = ndt::type(s2);
      });
      must_do("a var dimension", [&] { v = nd::empty(ndt::type(in)); });
      {
        Mode q(M_QUIET);
        nd::array src = nd::empty(tp);
        int *p = reinterpret_cast<int *>(src.data());
        for (size_t i = 0; i < buf[w.buf]->d.size(); i++)
          p[i] = buf[w.buf]->d[i];
        v.assign(src);
      }
      must_fail("viewing a var dimension as one of another size", [&] { t = nd::old_view(v, wrong); });
      must_do("viewing a var dimension", [&] { t = nd::old_view(v, tp); });
      put(b, t, w);
      if (r.chance(1, 2) && n > 1) {
        must_do("writing to a var dimension", [&] { v(1).assign(nd::array(val + 1)); });
        for (long i = 0; i < (k ? k : 1); i++)
          buf[w.buf]->d[(k ? k : 1) + i] = val + 1;
        verify("a view of a var dimension", b);
      }
      drop(v);
      drop_type(tp);
      drop_type(wrong);
      PROBE("viewed a var dimension");
      break;
    }
    case V_ITER: {
      if (a.dim.empty())
        break;
      for (long i = 0; i < a.dim[0]; i++) {
        nd::array e;
        must_do("indexing", [&] { e = a.a(i); }, unchanged);
        View w;
        w.buf = a.buf, w.off = a.off + i * a.str[0], w.isuns = a.isuns;
        w.dim.assign(a.dim.begin() + 1, a.dim.end());
        w.str.assign(a.str.begin() + 1, a.str.end());
        check_dump("wrong-contents", "a subarray", e, text(w));
        drop(e);
      }
      break;
    }
    }
    verify_all("an array", f);
  }
  void end() override {
    for (auto &row : cell)
      for (View &v : row) {
        verify("an array after all threads ended", v);
        drop(v.a);
        v = View();
      }
    for (View &v : frozen) {
      verify("a read-only array after all threads ended", v);
      drop(v.a);
      v = View();
    }
    for (int i = 0; i < nb; i++) {
      if (buf[i]->external && buf[i]->ext.freed != 1)
        rt::violation("owner-lost", "the free function of an external owner ran %d times after the last view went away", buf[i]->ext.freed);
      delete buf[i];
    }
    nb = 0;
  }
};
Register reg("C02", "views", []() -> Scenario * { return new C02; }, Tuning());
} // namespace
