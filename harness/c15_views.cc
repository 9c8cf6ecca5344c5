// C15: typed C++ views over native arrays, their iterators, boxes and dispatch.
#include "h.h"

#include "geoarrow/geoarrow.hpp"
using namespace h;
namespace au = geoarrow::array_util;

typedef au::XY<double> XY;
typedef au::XYZ<double> XYZ;
typedef au::XYM<double> XYM;
typedef au::XYZM<double> XYZM;
typedef au::XY<float> XYf;
typedef au::XYZM<float> XYZMf;

template <int N>
using Int = std::integral_constant<int, N>;

// f(Int<geometry type>, Int<dimensions>)
template <typename F>
static void with_type(int gt, int dims, F&& f) {
  auto d = [&](auto g) {
    switch (dims) {
      case 1: f(g, Int<1>()); break;
      case 2: f(g, Int<2>()); break;
      case 3: f(g, Int<3>()); break;
      default: f(g, Int<4>()); break;
    }
  };
  switch (gt) {
    case 1: d(Int<1>()); break;
    case 2: d(Int<2>()); break;
    case 3: d(Int<3>()); break;
    case 4: d(Int<4>()); break;
    case 5: d(Int<5>()); break;
    default: d(Int<6>()); break;
  }
}
template <typename G, typename D>
using ArrayOf = typename geoarrow::type_traits::GeometryTypeTraits<(enum GeoArrowGeometryType)G::value, (enum GeoArrowDimensions)D::value>::array_type;

template <typename C>
static C4 vals(const C& c) {
  C4 o = {{0, 0, 0, 0}};
  for (size_t i = 0; i < c.size(); i++) o.v[i] = (double)c[i];
  return o;
}
template <typename C>
static int dims_of() {
  return (int)C::dimensions;
}

// ---- flat expectations

typedef std::vector<C4> Seq;

static void flat_vertices(const Geom& g, Seq& o) {
  for (auto& c : g.coords) o.push_back(c);
  for (auto& r : g.rings)
    for (auto& c : r) o.push_back(c);
  for (auto& p : g.parts) flat_vertices(p, o);
}
static void seq_edges(const Seq& s, Seq& o) {
  for (size_t i = 0; i + 1 < s.size(); i++) o.push_back(s[i]), o.push_back(s[i + 1]);
}
static void flat_edges(const Geom& g, Seq& o) {
  if (g.type == T_POINT) {
    for (auto& c : g.coords) o.push_back(c), o.push_back(c);
    return;
  }
  seq_edges(g.coords, o);
  for (auto& r : g.rings) seq_edges(r, o);
  for (auto& p : g.parts) flat_edges(p, o);
}
// points that are empty are stored as NaN
static Geom stored(Geom g) {
  if (g.type == T_POINT && g.coords.empty()) g.coords.push_back(C4{{NAN, NAN, NAN, NAN}});
  for (auto& p : g.parts) p = stored(p);
  return g;
}
static Seq cast_seq(const Seq& s, int sd, int dd, bool to_float) {
  Seq o;
  for (auto& c : s) {
    C4 x = remap(c, sd, dd);
    if (to_float)
      for (double& d : x.v) d = (double)(float)d;
    o.push_back(x);
  }
  return o;
}
static void same(const char* what, const Seq& got, const Seq& want, int nd) {
  op();
  if (!seq_eq(got, want, nd)) fail(what, std::string(what) + ": got " + seq_str(got, nd) + ", should be " + seq_str(want, nd));
}

template <typename D, typename View>
static void check_visits(const View& v, int sd, const Seq& verts, const Seq& edges) {
  bool fl = sizeof(typename D::value_type) == 4;
  int dd = dims_of<D>(), nd = kND[dd];
  Seq got, ge;
  v.template VisitVertices<D>([&](D c) { got.push_back(vals(c)); });
  same("VisitVertices", got, cast_seq(verts, sd, dd, fl), nd);
  v.template VisitEdges<D>([&](D a, D b) {
    ge.push_back(vals(a));
    ge.push_back(vals(b));
  });
  same("VisitEdges", ge, cast_seq(edges, sd, dd, fl), nd);
}
template <typename View>
static void check_all_visits(const View& v, int sd, const Seq& verts, const Seq& edges) {
  check_visits<XY>(v, sd, verts, edges);
  check_visits<XYZ>(v, sd, verts, edges);
  check_visits<XYM>(v, sd, verts, edges);
  check_visits<XYZM>(v, sd, verts, edges);
  check_visits<XYf>(v, sd, verts, edges);
  check_visits<XYZMf>(v, sd, verts, edges);
}

// ---- rebuilding what a view shows

// every way to read a sequence of coordinates
template <typename S>
static Seq read_seq(const S& s) {
  typedef typename S::value_type C;
  int nd = (int)C().size();
  Seq a, b;
  for (auto c : s) a.push_back(vals(c));
  if ((int64_t)a.size() != s.size()) fail("size", fmt("%zu coordinates were visited of %ld", a.size(), (long)s.size()));
  auto it = s.begin();
  for (int64_t i = 0; i < s.size(); i++) {
    b.push_back(vals(s.coord(i)));
    C4 x = vals(it[i]);
    if (!ceq(x, b.back(), nd)) fail("index", fmt("iterator[%ld] differs from coord()", (long)i));
  }
  same("coord()", b, a, nd);
  for (int j = 0; j < nd; j++) {
    int64_t i = 0;
    auto d0 = s.dbegin((uint32_t)j);
    for (auto d = s.dbegin((uint32_t)j); d != s.dend((uint32_t)j); ++d, ++i) {
      if (i >= s.size()) fail("dimension", "a dimension iterator goes beyond the sequence");
      if (!deq((double)*d, a[i].v[j]) || !deq((double)d0[i], a[i].v[j])) fail("dimension", fmt("ordinate %d of coordinate %ld differs", j, (long)i));
    }
    if (i != s.size()) fail("dimension", "a dimension iterator ends early");
    if (s.size() && s.dend((uint32_t)j) - d0 != s.size()) fail("dimension", "dend - dbegin is not the size");
  }
  op(4);
  return a;
}
template <typename C, typename L>
struct IsCoords : std::false_type {};

struct Shown {  // nested lists of coordinates
  std::vector<Shown> kids;
  Seq c;
};
template <typename C>
static Shown show(const au::CoordSequence<C>& s) {
  Shown o;
  o.c = read_seq(s);
  return o;
}
template <typename T>
static Shown show(const au::ListSequence<T>& s) {
  Shown o;
  int64_t n = 0;
  for (const auto& kid : s) {
    o.kids.push_back(show(kid));
    n++;
  }
  if (n != s.size()) fail("size", fmt("%ld elements were visited of %ld", (long)n, (long)s.size()));
  return o;
}
static void expect_shown(const Shown& s, const Geom& g, int nd) {
  switch (g.type) {
    case T_LINESTRING:
      same("linestring", s.c, g.coords, nd);
      return;
    case T_POLYGON:
      if (s.kids.size() != g.rings.size()) fail("rings", fmt("%zu rings instead of %zu", s.kids.size(), g.rings.size()));
      for (size_t i = 0; i < g.rings.size(); i++) same("ring", s.kids[i].c, g.rings[i], nd);
      return;
    case T_MULTIPOINT: {
      Seq w;
      flat_vertices(g, w);
      same("multipoint", s.c, w, nd);
      return;
    }
    default:
      if (s.kids.size() != g.parts.size()) fail("parts", fmt("%zu parts instead of %zu", s.kids.size(), g.parts.size()));
      for (size_t i = 0; i < g.parts.size(); i++) expect_shown(s.kids[i], g.parts[i], nd);
  }
}

template <typename C>
static void check_rows(const au::CoordSequence<C>& value, const std::vector<Feat>& rows, int nd) {
  Seq s = read_seq(value);
  for (size_t i = 0; i < rows.size(); i++)
    if (!rows[i].null && !ceq(s[i], rows[i].g.coords[0], nd)) fail("row", fmt("row %zu is ", i) + seq_str({s[i]}, nd) + " instead of " + str(rows[i]));
}
template <typename T>
static void check_rows(const au::ListSequence<T>& value, const std::vector<Feat>& rows, int nd) {
  Shown s = show(value);
  for (size_t i = 0; i < rows.size(); i++)
    if (!rows[i].null) expect_shown(s.kids[i], rows[i].g, nd);
}

template <typename A>
static void check_array(const A& a, const std::vector<Feat>& rows, int dims) {
  int nd = kND[dims];
  if (a.value.size() != (int64_t)rows.size()) fail("length", fmt("%ld rows instead of %zu", (long)a.value.size(), rows.size()));
  Seq verts, edges;
  bool any_null = false;
  for (size_t i = 0; i < rows.size(); i++) {
    op(2);
    if (a.is_valid((int64_t)i) == rows[i].null || a.is_null((int64_t)i) != rows[i].null) fail("validity", fmt("row %zu has the wrong validity", i));
    any_null = any_null || rows[i].null;
    if (rows[i].null) continue;
    flat_vertices(rows[i].g, verts);
    flat_edges(rows[i].g, edges);
  }
  check_rows(a.value, rows, nd);
  Seq all = read_seq(a.Coords());
  if (!any_null) same("Coords", all, verts, nd);
  else {
    size_t k = 0;  // those of the nulls may be there, too
    for (auto& c : all)
      if (k < verts.size() && ceq(c, verts[k], nd)) k++;
    if (k != verts.size()) fail("Coords", "Coords() lacks coordinates of valid rows");
  }
  // a set bit for every row only means the same as no bitmap
  check_all_visits(a, dims, verts, edges);
}

// ---- scenarios

static void gen_rows(int gt, int dims, int n, std::vector<Feat>& rows, int nvar) {
  Values v;
  for (int i = 0; i < n; i++) {
    Feat f;
    int k = choose(nvar + 1);
    if (k == nvar) f.null = true;
    else f.g = stored(shape(gt, dims, gt == T_POINT ? k % 2 : k, v));
    rows.push_back(f);
  }
}
static std::vector<Feat> sub(const std::vector<Feat>& r, int from, int n) { return std::vector<Feat>(r.begin() + from, r.begin() + from + n); }

static void view_of(GeoArrowArrayView& v, int type, const Owned& a) {
  GeoArrowError e;
  if (GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type)) fail("init", "array view not initialised");
  if (GeoArrowArrayViewSetArray(&v, &a.a, &e)) fail("init", "array view refuses a valid array");
  op(2);
}

static void sc_arrays() {
  NType t;
  t.geometry_type = 1 + choose(6);
  int c = choose(8);
  t.dims = 1 + c % 4;
  t.interleaved = c / 4;
  int n = choose(vf::thorough() ? 5 : 4);
  std::vector<Feat> rows;
  gen_rows(t.geometry_type, t.dims, n, rows, t.geometry_type == T_POINT ? 2 : 3);
  NatOpts o;
  int lev = n_offsets(t.geometry_type);
  int lay = choose(vf::thorough() ? 5 : 4);
  if (lay & 1) o.off[0] = 3 + lay;
  if (lay & 2)
    for (int i = 0; i < lev; i++) o.lead[i] = 1 + i;
  if (lay >= 2)
    for (int i = 1; i <= lev + 1; i++) o.off[i] = i;
  o.trail = lay == 3;
  int nul = choose(3);
  o.null_content = nul == 1;
  o.validity = nul != 0;
  int from = choose(n + 1), len = choose(n - from + 1);
  Owned a;
  build_native(t, rows, o, a);
  GeoArrowArrayView v;
  view_of(v, t.type(), a);
  vf::state(ref::hash(rows));
  note("type %d rows %s, layout %d, nulls %d, slice %d+%d", t.type(), str(rows).c_str(), lay, nul, from, len);
  with_type(t.geometry_type, t.dims, [&](auto g, auto d) {
    ArrayOf<decltype(g), decltype(d)> arr;
    op();
    if (int rc = arr.Init(&v)) fail("init", fmt("Init gives code %d", rc));
    if ((int)arr.geometry_type != t.geometry_type || (int)arr.dimensions != t.dims) fail("type", "the array has another type");
    if (from == 0 && len == n) check_array(arr, rows, t.dims);
    else {
      auto s = arr.Slice(from, len);
      check_array(s, sub(rows, from, len), t.dims);
      if (len > 1) check_array(s.Slice(1, len - 1), sub(rows, from + 1, len - 1), t.dims);
      check_array(s.Slice(0, 0), {}, t.dims);
      if (arr.value.size() != n) fail("slice", "taking a slice changed the array");
    }
  });
}

// an array view may be read as an array with fewer ordinates, and as nothing else
static void sc_mismatch() {
  int gt = 1 + choose(7), c = choose(8);
  NType t{gt == 7 ? (int)T_BOX : gt, 1 + c % 4, c / 4 == 1};
  vf::assume(t.geometry_type != T_BOX || !t.interleaved);
  int gt2 = 1 + choose(6), d2 = 1 + choose(4);
  std::vector<Feat> rows;
  Values v;
  int n = choose(3);
  for (int i = 0; i < n; i++) {
    Feat f;
    f.g = t.geometry_type == T_BOX ? mk(T_BOX, t.dims) : stored(shape(t.geometry_type, t.dims, 1 + i, v));
    if (t.geometry_type == T_BOX) f.g.coords.push_back(v.c());
    rows.push_back(f);
  }
  Owned a;
  build_native(t, rows, NatOpts(), a);
  GeoArrowArrayView view;
  view_of(view, t.type(), a);
  int have = kND[t.dims] * (t.geometry_type == T_BOX ? 2 : 1);
  bool refuse = n_offsets(t.geometry_type) != n_offsets(gt2) || have < kND[d2];
  bool prefix = d2 == t.dims || d2 == D_XY || (d2 == D_XYZ && t.dims == D_XYZM);
  bool accept = t.geometry_type == gt2 && prefix;
  with_type(gt2, d2, [&](auto g, auto d) {
    ArrayOf<decltype(g), decltype(d)> arr;
    op();
    int rc = arr.Init(&view);
    vf::state((uint64_t)t.type() * 100000 + (uint64_t)(gt2 * 10 + d2) * 2 + (rc != 0));
    if (refuse && rc != EINVAL) fail("mismatch", fmt("an array of type %d was read as type %d dimensions %d (code %d)", t.type(), gt2, d2, rc));
    if (accept) {
      if (rc) fail("mismatch", fmt("an array of type %d was not read with dimensions %d (code %d)", t.type(), d2, rc));
      std::vector<Feat> want;
      for (auto& f : rows) {
        Feat x;
        x.g = remap(f.g, d2);
        want.push_back(x);
      }
      check_array(arr, want, d2);
    }
  });
}

// ---- boxes

template <typename C>
static void boxes(int dims) {
  typedef typename C::box_type B;
  int nd = kND[dims];
  int n = choose(4);
  int off = choose(2) * 3, koff = choose(2) * 2;
  std::vector<std::vector<double>> val;
  std::vector<bool> ok;
  bool nulls = false;
  for (int i = 0; i < n; i++) {
    ok.push_back(!flip());
    nulls = nulls || !ok.back();
    std::vector<double> r;
    for (int j = 0; j < 2 * nd; j++) r.push_back(100 * i + 7 * j + 1.5);
    val.push_back(r);
  }
  if (!nulls) nulls = flip();
  Arr* a = arr_new(n, off);
  Bytes bm((size_t)(off + n + 7) / 8, 0);
  for (int i = 0; i < off + n; i++)
    if (i < off ? i & 1 : (int)ok[i - off]) bm[i / 8] |= (uint8_t)(1 << (i % 8));
  arr_buf(a, bm.data(), bm.size(), !nulls);
  a->a.null_count = -1;
  for (int j = 0; j < 2 * nd; j++) {
    std::vector<double> d;
    for (int i = 0; i < koff + off; i++) d.push_back(-9000 - i);
    for (int i = 0; i < n; i++) d.push_back(val[i][j]);
    Arr* k = arr_new(off + n, koff);
    arr_buf(k, nullptr, 0, true);
    arr_buf(k, d.data(), d.size() * 8);
    arr_kid(a, k);
  }
  Owned own;
  own.hand = a;
  own.a = a->a;
  GeoArrowArrayView v;
  view_of(v, T_BOX + 1000 * (dims - 1), own);
  int from = choose(n + 1), len = choose(n - from + 1);
  au::BoxArray<C> arr;
  if (arr.Init(&v)) fail("init", "box array not initialised");
  if ((int)arr.dimensions != dims || arr.geometry_type != GEOARROW_GEOMETRY_TYPE_BOX) fail("type", "the box array has another type");
  au::BoxArray<C> s = arr.Slice(from, len);
  if (s.value.size() != len) fail("length", "wrong length of a slice");
  std::vector<Feat> lo, hi;
  const double inf = INFINITY;
  int zi = dims == D_XYZ || dims == D_XYZM ? 2 : -1, mi = dims == D_XYM ? 2 : dims == D_XYZM ? 3 : -1;
  int64_t i = 0;
  for (auto b : s.value) {
    op();
    const std::vector<double>& r = val[from + i];
    for (int j = 0; j < 2 * nd; j++)
      if (!deq(b[j], r[j])) fail("box", fmt("value %d of box %ld is %g instead of %g", j, (long)i, b[j], r[j]));
    double acc[] = {b.xmin(), b.ymin(), b.zmin(), b.mmin(), b.xmax(), b.ymax(), b.zmax(), b.mmax()};
    double want[] = {r[0], r[1], zi < 0 ? inf : r[zi], mi < 0 ? inf : r[mi], r[nd], r[nd + 1], zi < 0 ? -inf : r[nd + zi], mi < 0 ? -inf : r[nd + mi]};
    for (int j = 0; j < 8; j++)
      if (!deq(acc[j], want[j])) fail("box", fmt("bound %d of box %ld is %g instead of %g", j, (long)i, acc[j], want[j]));
    Feat f, g;
    f.g = mk(T_POINT, dims);
    g.g = f.g;
    C4 l = {{0, 0, 0, 0}}, u = l;
    for (int j = 0; j < nd; j++) l.v[j] = r[j], u.v[j] = r[nd + j];
    if (!ceq(vals(b.lower_bound()), l, nd) || !ceq(vals(b.upper_bound()), u, nd)) fail("box", "wrong corner");
    f.g.coords.push_back(l);
    g.g.coords.push_back(u);
    f.null = g.null = !ok[from + i];
    if (s.is_valid(i) != ok[from + i] || s.is_null(i) == ok[from + i]) fail("validity", "wrong validity of a box");
    lo.push_back(f);
    hi.push_back(g);
    i++;
  }
  if (i != len) fail("length", "wrong number of boxes");
  check_array(s.LowerBound(), lo, dims);
  check_array(s.UpperBound(), hi, dims);
  B e = B::Empty();
  for (int j = 0; j < 2 * nd; j++)
    if (!deq(e[j], j < nd ? inf : -inf)) fail("empty box", fmt("value %d of the empty box is %g", j, e[j]));
  double eb[] = {e.xmin(), e.ymin(), e.zmin(), e.mmin(), e.xmax(), e.ymax(), e.zmax(), e.mmax()};
  for (int j = 0; j < 8; j++)
    if (!deq(eb[j], j < 4 ? inf : -inf)) fail("empty box", fmt("bound %d of the empty box is %g", j, eb[j]));
  vf::state((uint64_t)dims * 1000 + (uint64_t)n * 100 + (uint64_t)from * 10 + (uint64_t)len);
}
static void sc_boxes() {
  switch (choose(4)) {
    case 0: boxes<XY>(1); break;
    case 1: boxes<XYZ>(2); break;
    case 2: boxes<XYM>(3); break;
    default: boxes<XYZM>(4); break;
  }
}

// ---- sequences of any spacing and alignment

struct Plain {
  double operator()(const uint8_t* p) const {
    double d;
    memcpy(&d, p, 8);
    return d;
  }
};
struct Swapped {
  double operator()(const uint8_t* p) const {
    uint64_t u;
    memcpy(&u, p, 8);
    u = __builtin_bswap64(u);
    double d;
    memcpy(&d, &u, 8);
    return d;
  }
};

// storage of n coordinates: [pad bytes][strided ordinates]
struct Store {
  std::vector<uint8_t*> blocks;
  std::vector<uint8_t*> first;  // of each ordinate
  Seq seq;
  ~Store() {
    for (auto* b : blocks) delete[] b;
  }
  // stride in doubles; separate: one block per ordinate
  Store(int n, int nd, int stride, bool separate, int mis, bool swap) {
    Values v;
    for (int i = 0; i < n; i++) seq.push_back(v.c());
    int nb = separate ? nd : 1;
    for (int b = 0; b < nb; b++) {
      size_t width = separate ? 1 : (size_t)nd;
      size_t sz = n ? ((size_t)(n - 1) * stride + width) * 8 + mis : (size_t)mis + 1;
      uint8_t* p = new uint8_t[sz];
      memset(p, 0x5a, sz);
      blocks.push_back(p);
      for (int i = 0; i < n; i++)
        for (size_t j = 0; j < width; j++) {
          double d = seq[i].v[separate ? b : (int)j];
          if (swap) d = Nodes::sw(d);
          memcpy(p + mis + ((size_t)i * stride + j) * 8, &d, 8);
        }
      for (size_t j = 0; j < width; j++) first.push_back(p + mis + 8 * j);
    }
  }
};

template <typename S>
static void check_seq(const S& s, const Seq& want, int dims) {
  same("sequence", read_seq(s), want, kND[dims]);
  Seq e;
  seq_edges(want, e);
  check_all_visits(s, dims, want, e);
}
template <typename S>
static void check_slices(const S& s, const Seq& want, int dims) {
  int n = (int)want.size();
  int from = choose(n + 1), len = choose(n - from + 1);
  if (from == 0 && len == n) check_seq(s, want, dims);
  auto t = s.Slice(from, len);
  Seq w(want.begin() + from, want.begin() + from + len);
  check_seq(t, w, dims);
  if (len) check_seq(t.Slice(1, len - 1), Seq(w.begin() + 1, w.end()), dims);
}

template <typename C>
static void seqs(int dims) {
  int nd = kND[dims];
  int kind = choose(4);  // aligned, unaligned plain, unaligned swapped, coordinate view
  int n = choose(vf::thorough() ? 6 : 5);
  bool separate = flip();
  int stride = (separate ? 1 : nd) + choose(3);
  int mis = kind == 1 || kind == 2 ? choose(8) : 0;
  Store st(n, nd, stride, separate, mis, kind == 2);
  std::array<const double*, C().size()> dp;
  std::array<const void*, C().size()> vp;
  for (int j = 0; j < nd; j++) dp[j] = (const double*)st.first[j], vp[j] = st.first[j];
  bool none = n == 0 && !separate && flip();  // a null pointer is an empty sequence
  op();
  auto init = [&](auto& s, auto* p, auto& ptrs, auto* null) {
    int rc = separate ? s.InitSeparated(n, ptrs, stride) : s.InitInterleaved(n, none ? null : p, stride);
    if (rc) fail("init", "sequence not initialised");
    if (separate || none) return;
    auto t = s;
    if (t.InitInterleaved(1, null, stride) != EINVAL) fail("init", "a null pointer was accepted as a sequence of one");
  };
  vf::state(vf::hash_str(fmt("%d %d %d %d %d %d", dims, kind, n, separate, stride, mis).c_str()));
  if (kind == 0) {
    au::CoordSequence<C> s;
    init(s, dp[0], dp, (const double*)nullptr);
    check_slices(s, st.seq, dims);
  } else if (kind == 1) {
    au::UnalignedCoordSequence<C> s;
    init(s, (const void*)st.first[0], vp, (const void*)nullptr);
    check_slices(s, st.seq, dims);
  } else if (kind == 2) {
    au::UnalignedCoordSequence<C, Swapped> s;
    init(s, (const void*)st.first[0], vp, (const void*)nullptr);
    check_slices(s, st.seq, dims);
  } else {
    GeoArrowCoordView cv;
    memset(&cv, 0, sizeof cv);
    cv.n_coords = n;
    cv.n_values = nd;
    cv.coords_stride = stride;
    for (int j = 0; j < nd; j++) cv.values[j] = dp[j];
    au::CoordSequence<C> s;
    au::UnalignedCoordSequence<C> u;
    if (s.InitFrom(&cv) || u.InitFrom(&cv)) fail("init", "sequence not initialised from a coordinate view");
    if (flip()) check_slices(s, st.seq, dims);
    else check_slices(u, st.seq, dims);
    cv.n_values = nd - 1;
    if (s.InitFrom(&cv) != EINVAL || u.InitFrom(&cv) != EINVAL) fail("init", "too few ordinates were accepted");
    au::CoordSequence<XYf> f;
    cv.n_values = nd;
    if (f.InitFrom(&cv) != EINVAL) fail("init", "doubles were accepted as floats");
  }
}
static void sc_seqs() {
  switch (choose(4)) {
    case 0: seqs<XY>(1); break;
    case 1: seqs<XYZ>(2); break;
    case 2: seqs<XYM>(3); break;
    default: seqs<XYZM>(4); break;
  }
}

// ---- iterators as index machines

template <typename I, typename At>
static void walk(I begin, I end, int n, At&& at, bool can_index, std::function<double(I&)> post) {
  int depth = vf::thorough() ? 5 : 3;
  I it = begin;
  int pos = 0;
  for (int step = 0; step < depth; step++) {
    int what = choose(post ? 6 : 5);
    if (what == 0) break;
    op();
    if (what == 1) {
      vf::assume(pos < n);
      auto& r = ++it;
      if ((const void*)&r != (const void*)&it) fail("iterator", "++ does not return the iterator");
      pos++;
    } else if (what == 2) {
      vf::assume(pos > 0);
      --it;
      pos--;
    } else if (what == 3) {
      int to = choose(n + 1);
      it += to - pos;
      pos = to;
    } else if (what == 4) {
      int to = choose(n + 1);
      it -= pos - to;
      pos = to;
    } else {
      vf::assume(pos < n);
      double d = post(it);
      if (!at.same(pos, d)) fail("iterator", fmt("post-increment at %d gives %g", pos, d));
      pos++;
    }
    vf::state((uint64_t)(pos * 10 + n) * 10 + (uint64_t)what);
    if (it - begin != pos || end - it != n - pos || begin - it != -pos) fail("iterator", fmt("wrong distance at %d of %d", pos, n));
    if ((it == begin) != (pos == 0) || (it != begin) != (pos != 0) || (it == end) != (pos == n) || (it != end) != (pos != n))
      fail("iterator", "wrong equality");
    if ((begin < it) != (pos > 0) || (it < end) != (pos < n) || (it > begin) != (pos > 0) || (end > it) != (pos < n) || !(begin <= it) ||
        !(it <= end) || !(it >= begin) || !(end >= it) || (it <= begin) != (pos == 0) || (it >= end) != (pos == n) || it < it || it > it)
      fail("iterator", "wrong order");
    if (pos < n && !at.deref(it, pos)) fail("iterator", fmt("wrong element at %d of %d", pos, n));
    if (can_index)
      for (int i = -pos; i < n - pos; i++)
        if (!at.index(it, i, pos + i)) fail("iterator", fmt("wrong element at %d[%d] of %d", pos, i, n));
  }
}
struct AtCoord {
  const Seq& s;
  template <typename I>
  bool deref(I& it, int p) { return ceq(vals(*it), s[p], 3); }
  template <typename I>
  bool index(I& it, int i, int p) { return ceq(vals(it[i]), s[p], 3); }
  bool same(int, double) { return false; }
};
struct AtOrd {
  const Seq& s;
  int j;
  bool same(int p, double d) { return deq(s[p].v[j], d); }
  template <typename I>
  bool deref(I& it, int p) { return same(p, *it); }
  template <typename I>
  bool index(I& it, int i, int p) { return same(p, it[i]); }
};
struct AtList {
  const std::vector<Seq>& s;
  template <typename I>
  bool deref(I& it, int p) {
    Seq g;
    for (auto c : *it) g.push_back(vals(c));
    return seq_eq(g, s[p], 3);
  }
  template <typename I>
  bool index(I&, int, int) { return true; }
  bool same(int, double) { return false; }
};
struct AtBlob {
  const std::vector<std::string>& s;
  bool eq(const GeoArrowBufferView& b, int p) {
    return b.size_bytes == (int64_t)s[p].size() && (s[p].empty() || !memcmp(b.data, s[p].data(), s[p].size()));
  }
  template <typename I>
  bool deref(I& it, int p) { return eq(*it, p); }
  template <typename I>
  bool index(I& it, int i, int p) { return eq(it[i], p); }
  bool same(int, double) { return false; }
};
// forwards all but operator[]
template <typename A>
struct NoIndex {
  A a;
  template <typename I>
  bool deref(I& it, int p) { return a.deref(it, p); }
  template <typename I>
  bool index(I&, int, int) { return true; }
  bool same(int p, double d) { return a.same(p, d); }
};

static void sc_iterators() {
  int kind = choose(8);
  int n = choose(4);
  int off = choose(2);
  if (kind < 6) {
    bool separate = flip();
    int extra = choose(2);
    int stride = (separate ? 1 : 3) + extra;
    bool unaligned = kind & 1, swap = kind == 3 || kind == 5;
    Store st(n + off + 1, 3, stride, separate, unaligned ? 5 : 0, swap);
    Seq want(st.seq.begin() + off, st.seq.begin() + off + n);
    au::CoordSequence<XYM> a;
    au::UnalignedCoordSequence<XYM> u;
    au::UnalignedCoordSequence<XYM, Swapped> w;
    for (int j = 0; j < 3; j++) {
      a.values[j] = (const double*)st.first[j];
      u.values[j] = w.values[j] = st.first[j];
    }
    a.stride = stride;
    u.stride_bytes = w.stride_bytes = stride * 8;
    a.offset = u.offset = w.offset = off;
    a.length = u.length = w.length = n;
    if (kind < 2) {
      if (!unaligned) walk(a.begin(), a.end(), n, AtCoord{want}, true, std::function<double(decltype(a.begin())&)>());
      else walk(u.begin(), u.end(), n, AtCoord{want}, true, std::function<double(decltype(u.begin())&)>());
      return;
    }
    if (kind == 3 && flip()) {
      walk(w.begin(), w.end(), n, AtCoord{want}, true, std::function<double(decltype(w.begin())&)>());
      return;
    }
    int j = choose(3);
    if (!unaligned) {
      typedef decltype(a.dbegin(0)) I;
      walk<I>(a.dbegin(j), a.dend(j), n, AtOrd{want, j}, true, [](I& it) { return it++; });
    } else if (swap) {
      typedef decltype(w.dbegin(0)) I;
      walk<I>(w.dbegin(j), w.dend(j), n, AtOrd{want, j}, true, [](I& it) { return it++; });
    } else {
      typedef decltype(u.dbegin(0)) I;
      walk<I>(u.dbegin(j), u.dend(j), n, AtOrd{want, j}, true, [](I& it) { return it++; });
    }
    return;
  }
  if (kind == 6) {
    std::vector<Seq> lists;
    Values v;
    NType t{T_LINESTRING, D_XYZ, flip()};
    std::vector<Feat> rows;
    for (int i = 0; i < n; i++) {
      Feat f;
      f.g = shape(T_LINESTRING, D_XYZ, choose(3), v);
      lists.push_back(f.g.coords);
      rows.push_back(f);
    }
    NatOpts o;
    o.off[0] = off * 2;
    o.lead[0] = off;
    Owned a;
    build_native(t, rows, o, a);
    GeoArrowArrayView view;
    view_of(view, t.type(), a);
    au::LinestringArray<XYZ> arr;
    if (arr.Init(&view)) fail("init", "not initialised");
    walk(arr.value.begin(), arr.value.end(), n, AtList{lists}, false, std::function<double(decltype(arr.value.begin())&)>());
    return;
  }
  std::vector<std::string> blobs;
  std::vector<bool> ok;
  for (int i = 0; i < n; i++) {
    blobs.push_back(std::string((size_t)choose(3), (char)('a' + i)));
    ok.push_back(true);
  }
  NatOpts o;
  o.off[0] = off * 2;
  o.lead[0] = off;
  Owned a;
  bool large = flip();
  build_serialized(blobs, ok, o, a, large);
  if (large) {
    au::BinarySequence<int64_t> s;
    s.offset = a.a.offset;
    s.length = n;
    s.offsets = (const int64_t*)a.a.buffers[1];
    s.data = (const uint8_t*)a.a.buffers[2];
    walk(s.begin(), s.end(), n, AtBlob{blobs}, true, std::function<double(decltype(s.begin())&)>());
  } else {
    GeoArrowArrayView view;
    view_of(view, GEOARROW_TYPE_WKB, a);
    au::BinarySequence<int32_t> s;
    if (s.InitFrom(&view)) fail("init", "not initialised");
    walk(s.begin(), s.end(), n, AtBlob{blobs}, true, std::function<double(decltype(s.begin())&)>());
  }
}

// ---- large offsets into a sequence: nothing may be computed in 32 bits

static void sc_far() {
  // a window of a few coordinates, addressed from a base that is far before it
  int dims = 1 + choose(4), kind = choose(3);
  int64_t base = (int64_t)1 << (28 + choose(8));
  bool back = flip();
  if (back) base = -base;
  int n = 1 + choose(3);
  (void)dims;
  Store st(n, 3, 3, false, 0, kind == 2);
  Seq want = st.seq;
  if (kind == 0) {
    au::CoordSequence<XYZ> s;
    for (int j = 0; j < 3; j++) s.values[j] = (const double*)((uintptr_t)st.first[j] - (uintptr_t)(base * 24));
    s.offset = base, s.length = n, s.stride = 3;
    check_seq(s, want, 2);
  } else if (kind == 1) {
    au::UnalignedCoordSequence<XYZ> s;
    for (int j = 0; j < 3; j++) s.values[j] = (const uint8_t*)((uintptr_t)st.first[j] - (uintptr_t)(base * 24));
    s.offset = base, s.length = n, s.stride_bytes = 24;
    check_seq(s, want, 2);
  } else {
    au::UnalignedCoordSequence<XYZ, Swapped> s;
    for (int j = 0; j < 3; j++) s.values[j] = (const uint8_t*)((uintptr_t)st.first[j] - (uintptr_t)(base * 24));
    s.offset = 0, s.length = n, s.stride_bytes = 24;
    auto t = s.Slice(base, n);
    check_seq(t, want, 2);
  }
  vf::state((uint64_t)base * 8 + (uint64_t)kind);
}

// ---- dispatch and compile-time types

struct Seen {
  int calls = 0, gt = -1, dims = -1;
  bool wkb = false;
};
template <typename A>
static void dispatched(A& a, Seen* s) {
  s->calls++;
  s->gt = (int)a.geometry_type;
  s->dims = (int)a.dimensions;
  s->wkb = std::is_same<A, geoarrow::wkb_util::WKBArray<int32_t>>::value;
}
template <typename G, typename D, int INTER>
static void traits() {
  using T = geoarrow::type_traits::GeometryTypeTraits<(enum GeoArrowGeometryType)G::value, (enum GeoArrowDimensions)D::value>;
  constexpr enum GeoArrowCoordType ct = INTER ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  constexpr enum GeoArrowType id = T::type_id(ct);
  int want = type_of(G::value, D::value, INTER);
  op();
  if ((int)id != want || id != GeoArrowMakeType((enum GeoArrowGeometryType)G::value, (enum GeoArrowDimensions)D::value, ct))
    fail("type id", fmt("type_id() is %d instead of %d", (int)id, want));
  using U = geoarrow::type_traits::TypeTraits<id>;
  if ((int)U::geometry_type != G::value || (int)U::dimensions != D::value || U::coord_type_id != ct) fail("traits", fmt("TypeTraits<%d> disagree with the type", (int)id));
  if (!std::is_same<typename U::array_type, typename T::array_type>::value || !std::is_same<typename U::coord_type, typename T::coord_type>::value)
    fail("traits", fmt("TypeTraits<%d> have other types", (int)id));
  typename U::array_type a;
  if ((int)a.geometry_type != G::value || (int)a.dimensions != D::value) fail("traits", fmt("the array of type %d has another type", (int)id));
  if ((int)T::coord_type::dimensions != D::value || (int)typename T::coord_type().size() != kND[D::value]) fail("traits", "wrong coordinate type");
}
static void sc_dispatch() {
  int gt = choose(9), dims = choose(6), ct = choose(3);
  if (gt >= 1 && gt <= 6 && dims >= 1 && dims <= 4 && ct) {
    int id = type_of(gt, dims, ct == 2);
    Seen s, t;
    GEOARROW_DISPATCH_ARRAY_CALL((enum GeoArrowType)id, dispatched, &s);
    GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((enum GeoArrowType)id, dispatched, &t);
    op(2);
    vf::state((uint64_t)id);
    if (s.calls != 1 || s.gt != gt || s.dims != dims || t.calls != 1 || t.gt != gt || t.dims != dims) fail("dispatch", fmt("type %d was dispatched to another array", id));
    with_type(gt, dims, [&](auto g, auto d) {
      if (ct == 2) traits<decltype(g), decltype(d), 1>();
      else traits<decltype(g), decltype(d), 0>();
    });
    return;
  }
  static const int other[] = {GEOARROW_TYPE_UNINITIALIZED, GEOARROW_TYPE_WKB,     GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKT,     GEOARROW_TYPE_LARGE_WKT,
                              GEOARROW_TYPE_BOX,           GEOARROW_TYPE_BOX_ZM, GEOARROW_TYPE_WKB_VIEW,  GEOARROW_TYPE_WKT_VIEW};
  vf::assume(dims == 0 && ct == 0);
  int id = other[gt];
  Seen s;
  bool threw = false;
  op();
  try {
    GEOARROW_DISPATCH_ARRAY_CALL((enum GeoArrowType)id, dispatched, &s);
  } catch (geoarrow::Exception& e) {
    threw = true;
  }
  vf::state((uint64_t)id);
  if (id == GEOARROW_TYPE_WKB ? threw || s.calls != 1 || !s.wkb : !threw || s.calls) fail("dispatch", fmt("type %d: wrong dispatch", id));
}

int main(int argc, char** argv) {
  return vf::main_(
      argc, argv,
      {{"arrays", sc_arrays, true, "6 types x 4 dimensions x 2 layouts x all sequences of up to 3 (4) rows of 3-4 kinds x 4 (5) offset layouts x 3 validities x "
                                   "all slices, read by every accessor and visited as 6 coordinate types"},
       {"mismatch", sc_mismatch, true, "52 array types x up to 2 rows read as each of 24 C++ array types"},
       {"boxes", sc_boxes, true, "4 dimensions x up to 3 boxes x validity x offsets x all slices"},
       {"seqs", sc_seqs, true, "4 dimensions x aligned/unaligned/swapped/view x up to 4 (5) coordinates x layouts x strides x misalignments x all slices"},
       {"iterators", sc_iterators, true, "8 kinds of iterators over up to 3 elements: all sequences of up to 3 (5) operations with all distances"},
       {"far", sc_far, true, "sequences whose offset is 2^28..2^35 either way"},
       {"dispatch", sc_dispatch, true, "all types through both dispatch macros and the compile-time traits"}});
}
