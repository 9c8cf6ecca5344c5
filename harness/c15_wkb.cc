// C15: the C++ WKB parser and arrays of WKB.
#include "h.h"

#include "geoarrow/geoarrow.hpp"
using namespace h;
namespace au = geoarrow::array_util;
using geoarrow::wkb_util::WKBArray;
using geoarrow::wkb_util::WKBGeometry;
using geoarrow::wkb_util::WKBParser;
using geoarrow::wkb_util::WKBSequence;

typedef au::XY<double> XY;
typedef au::XYZ<double> XYZ;
typedef au::XYM<double> XYM;
typedef au::XYZM<double> XYZM;
typedef au::XY<float> XYf;
typedef std::vector<C4> Seq;

template <typename C>
static C4 vals(const C& c) {
  C4 o = {{0, 0, 0, 0}};
  for (size_t i = 0; i < c.size(); i++) o.v[i] = (double)c[i];
  return o;
}

// vertices and edges, each as XYZM (missing ordinates NaN)
static void flat_vertices(const Geom& g, Seq& o) {
  for (auto& c : g.coords) o.push_back(remap(c, g.dims, D_XYZM));
  for (auto& r : g.rings)
    for (auto& c : r) o.push_back(remap(c, g.dims, D_XYZM));
  for (auto& p : g.parts) flat_vertices(p, o);
}
static void seq_edges(const Seq& s, int dims, Seq& o) {
  for (size_t i = 0; i + 1 < s.size(); i++) o.push_back(remap(s[i], dims, D_XYZM)), o.push_back(remap(s[i + 1], dims, D_XYZM));
}
static void flat_edges(const Geom& g, Seq& o) {
  if (g.type == T_POINT)
    for (auto& c : g.coords)
      for (int k = 0; k < 2; k++) o.push_back(remap(c, g.dims, D_XYZM));
  else {
    seq_edges(g.coords, g.dims, o);
    for (auto& r : g.rings) seq_edges(r, g.dims, o);
    for (auto& p : g.parts) flat_edges(p, o);
  }
}
static Geom stored(Geom g) {
  if (g.type == T_POINT && g.coords.empty()) g.coords.push_back(C4{{NAN, NAN, NAN, NAN}});
  for (auto& p : g.parts) p = stored(p);
  return g;
}
static void same(const char* what, const Seq& got, const Seq& want, int nd) {
  op();
  if (!seq_eq(got, want, nd)) fail(what, std::string(what) + ": got " + seq_str(got, nd) + ", should be " + seq_str(want, nd));
}
template <typename D, typename View>
static void check_visits(const View& v, const Seq& verts, const Seq& edges) {
  bool fl = sizeof(typename D::value_type) == 4;
  int dd = (int)D::dimensions, nd = kND[dd];
  auto cast = [&](const Seq& s) {
    Seq o;
    for (auto& c : s) {
      C4 x = remap(c, D_XYZM, dd);
      if (fl)
        for (double& d : x.v) d = (double)(float)d;
      o.push_back(x);
    }
    return o;
  };
  Seq got, ge;
  v.template VisitVertices<D>([&](D c) { got.push_back(vals(c)); });
  same("VisitVertices", got, cast(verts), nd);
  v.template VisitEdges<D>([&](D a, D b) {
    ge.push_back(vals(a));
    ge.push_back(vals(b));
  });
  same("VisitEdges", ge, cast(edges), nd);
}
template <typename View>
static void check_all_visits(const View& v, const Seq& verts, const Seq& edges) {
  check_visits<XY>(v, verts, edges);
  check_visits<XYZ>(v, verts, edges);
  check_visits<XYM>(v, verts, edges);
  check_visits<XYZM>(v, verts, edges);
  check_visits<XYf>(v, verts, edges);
}

static Seq from_xyzm(const Seq& s, int dims) {
  Seq o;
  for (auto& c : s) o.push_back(remap(c, D_XYZM, dims));
  return o;
}
static Seq read_sequence(const WKBSequence& s, int dims) {
  Seq o, e, want;
  s.VisitVertices<XYZM>([&](XYZM c) { o.push_back(vals(c)); });
  if (s.size() != o.size()) fail("size", fmt("a sequence of size %u has %zu vertices", s.size(), o.size()));
  if ((int)s.dimensions != dims) fail("dimensions", "a sequence has other dimensions than its geometry");
  s.VisitEdges<XYZM>([&](XYZM a, XYZM b) {
    e.push_back(vals(a));
    e.push_back(vals(b));
  });
  seq_edges(o, D_XYZM, want);
  same("sequence edges", e, want, 4);
  if (s.endianness == GEOARROW_NATIVE_ENDIAN) {
    Seq xy;
    for (auto c : s.ViewAsNativeXY()) xy.push_back(vals(c));
    same("ViewAsNativeXY", xy, o, 2);
  }
  return from_xyzm(o, dims);
}

static Geom decode(const WKBGeometry& w) {
  Geom g = mk((int)w.geometry_type, (int)w.dimensions);
  op();
  if (g.dims < 1 || g.dims > 4) fail("dimensions", fmt("dimensions %d", g.dims));
  if (g.type == T_POINT || g.type == T_LINESTRING) {
    if (w.NumSequences() != 1 || w.NumGeometries() != 0) fail("structure", fmt("%u sequences and %u members in a point or linestring", w.NumSequences(), w.NumGeometries()));
    g.coords = read_sequence(w.Sequence(0), g.dims);
  } else if (g.type == T_POLYGON) {
    if (w.NumGeometries() != 0) fail("structure", "members in a polygon");
    for (uint32_t i = 0; i < w.NumSequences(); i++) g.rings.push_back(read_sequence(w.Sequence(i), g.dims));
  } else {
    if (w.NumSequences() != 0) fail("structure", "sequences in a collection");
    for (uint32_t i = 0; i < w.NumGeometries(); i++) g.parts.push_back(decode(w.Geometry(i)));
  }
  return g;
}

// the SRIDs, depth first
static void srids_of(const WKBGeometry& w, std::vector<uint32_t>& o) {
  o.push_back(w.srid);
  for (uint32_t i = 0; i < w.NumGeometries(); i++) srids_of(w.Geometry(i), o);
}
static void srids_want(const uint8_t* p, size_t& i, std::vector<uint32_t>& o) {
  // p is valid WKB
  auto u32 = [&](bool le) {
    uint32_t x = 0;
    for (int k = 0; k < 4; k++) x |= (uint32_t)p[i + k] << (le ? 8 * k : 24 - 8 * k);
    i += 4;
    return x;
  };
  bool le = p[i++] == 1;
  uint32_t t = u32(le);
  o.push_back(t & 0x20000000u ? u32(le) : 0xFFFFFFFFu);
  uint32_t low = t & 0xffff;
  int d = (int)(low / 1000);
  bool z = (t & 0x80000000u) || d == 1 || d == 3, m = (t & 0x40000000u) || d >= 2;
  int nd = 2 + z + m;
  int gt = (int)(low % 1000);
  if (gt == T_POINT) {
    i += 8 * (size_t)nd;
    return;
  }
  uint32_t n = u32(le);
  if (gt == T_LINESTRING) i += 8ul * nd * n;
  else if (gt == T_POLYGON)
    for (uint32_t k = 0; k < n; k++) i += 8ul * nd * u32(le);
  else
    for (uint32_t k = 0; k < n; k++) srids_want(p, i, o);
}

static void expect_geom(const WKBGeometry& w, const Geom& g, const uint8_t* p, bool misfit = false) {
  Geom got = decode(w);
  if (!geq(got, g)) fail("geometry", "parsed " + str(got) + " instead of " + str(g));
  Seq v, e;
  flat_vertices(g, v);
  flat_edges(g, e);
  // what the edges of members are that do not fit their multi type is not specified
  if (!misfit) check_all_visits(w, v, e);
  std::vector<uint32_t> a, b;
  srids_of(w, a);
  size_t i = 0;
  srids_want(p, i, b);
  if (a != b) fail("srid", "wrong SRID of " + str(g));
  vf::state(ref::hash(got));
}

static void encode(Bytes& b, const Geom& g) {
  WkbOpts o;
  o.little = [] { return !flip(); };
  int k = choose(4);
  o.ewkb = k > 0;
  o.srid = k > 1;
  o.srid_all = k > 2;
  wkb(g, b, o);
}

// what a parser has been used for before
static void used(WKBParser& parser, WKBGeometry& w) {
  int k = choose(4);
  if (!k) return;
  Values v;
  v.next = 5001;
  Geom g = shape(k == 1 ? T_GC : k == 2 ? T_POLYGON : T_MULTIPOLYGON, D_XYZM, 3 - (k == 2), v);
  Bytes b;
  WkbOpts o;
  o.ewkb = o.srid = o.srid_all = true;
  o.little = [] { return false; };
  wkb(stored(g), b, o);
  if (k == 3) b.resize(b.size() - 5);
  Exact e(b.data(), b.size());
  op();
  WKBParser::Status st = parser.Parse(exact_ptr(e), e.n, &w);
  if ((k == 3) != (st != WKBParser::OK)) fail("status", "wrong status of the first blob");
}

// parses the bytes and compares with the oracle; exact: the status if it is not OK
static void parse_check(const Bytes& b, int exact, bool fresh = false) {
  Geom want;
  Verdict ver = parse_wkb(b.data(), b.size(), want);
  WKBParser parser;
  WKBGeometry w;
  if (!fresh) used(parser, w);
  Exact e(b.data(), b.size());
  const uint8_t* p = exact_ptr(e);
  const uint8_t* cur = nullptr;
  op();
  WKBParser::Status st;
  if (!fresh && flip()) st = parser.Parse(p, e.n, &w, &cur);
  else st = parser.Parse(GeoArrowBufferView{p, (int64_t)e.n}, &w, &cur);
  vf::state((uint64_t)ver * 16 + (uint64_t)st);
  note("%s -> status %d, oracle %d", hex(b).c_str(), (int)st, (int)ver);
  std::string name = parser.ErrorToString(st);
  static const char* names[] = {"OK", "TOO_FEW_BYTES", "TOO_MANY_BYTES", "INVALID_ENDIAN", "INVALID_GEOMETRY_TYPE"};
  if ((unsigned)st < 5 && name != names[(unsigned)st]) fail("name", "status " + std::to_string((int)st) + " is called " + name);
  bool done = st == WKBParser::OK || st == WKBParser::TOO_MANY_BYTES;
  if (ver == V_OK) {
    if (st != WKBParser::OK) fail("status", "valid WKB " + hex(b) + " was rejected: " + name);
    if (cur != p + e.n) fail("cursor", "the cursor is not at the end");
    expect_geom(w, want, p);
  } else if (ver == V_ERR) {
    if (done) fail("status", "invalid WKB " + hex(b) + " was accepted: " + name);
    if (exact >= 0 && (int)st != exact) fail("status", "WKB " + hex(b) + " gave " + name + " instead of status " + std::to_string(exact));
  } else if (ver == V_MAY) {
    WkbParser q(b.data(), b.size());
    Geom g2;
    q.geom(g2, 0, -1);
    if (done) {
      if ((q.i != b.size()) != (st == WKBParser::TOO_MANY_BYTES)) fail("status", "WKB " + hex(b) + ": " + name + " but " + std::to_string(q.i) + " bytes are used");
      if (cur != p + q.i) fail("cursor", "the cursor is not behind the geometry");
      expect_geom(w, want, p, q.misfit);
    } else if (exact >= 0)
      fail("status", "WKB " + hex(b) + " gave " + name + " instead of status " + std::to_string(exact));
  } else if (done) {  // unspecified: whatever is shown must be inside the blob
    decode(w);
    if (cur > p + e.n) fail("cursor", "the cursor is beyond the blob");
  } else if (exact >= 0 && (int)st != exact)
    fail("status", "WKB " + hex(b) + " gave " + name + " instead of status " + std::to_string(exact));
}

static GenOpts gen_opts(int budget) {
  GenOpts o;
  o.budget = budget;
  o.max_depth = 3;
  o.mixed = budget < (vf::thorough() ? 4 : 3);
  return o;
}

static void sc_valid() {
  Geom g = stored(gen_geom(gen_opts(vf::thorough() ? 4 : 3)));
  Bytes b;
  encode(b, g);
  parse_check(b, -1, !vf::thorough());
}
static void sc_truncate() {
  Geom g = stored(gen_geom(gen_opts(2)));
  Bytes b;
  encode(b, g);
  size_t cut = (size_t)choose((int)b.size());
  b.resize(cut);
  parse_check(b, WKBParser::TOO_FEW_BYTES, !vf::thorough());
}
static void sc_trailing() {
  Geom g = stored(gen_geom(gen_opts(2)));
  Bytes b;
  encode(b, g);
  int k = 1 + choose(3);
  for (int i = 0; i < k; i++) b.push_back(i ? 0 : 1);
  parse_check(b, WKBParser::TOO_MANY_BYTES, !vf::thorough());
}

// one header byte of a small geometry changed
static void header_bytes(const uint8_t* p, size_t n, std::vector<size_t>& at, std::vector<size_t>& endian) {
  // offsets of the bytes of endian flags, types and counts of valid WKB
  size_t i = 0;
  std::function<void()> geom = [&] {
    endian.push_back(i);
    bool le = p[i] == 1;
    auto u32 = [&](size_t j) {
      uint32_t x = 0;
      for (int k = 0; k < 4; k++) x |= (uint32_t)p[j + k] << (le ? 8 * k : 24 - 8 * k);
      return x;
    };
    uint32_t t = u32(i + 1);
    for (int k = 1; k < 5; k++) at.push_back(i + k);
    i += 5;
    if (t & 0x20000000u) i += 4;
    uint32_t low = t & 0xffff, d = low / 1000;
    int nd = 2 + ((t & 0x80000000u) || d == 1 || d == 3) + ((t & 0x40000000u) || d >= 2);
    low %= 1000;
    if (low == T_POINT) {
      i += 8 * (size_t)nd;
      return;
    }
    uint32_t cnt = u32(i);
    for (int k = 0; k < 4; k++) at.push_back(i + k);
    i += 4;
    if (low == T_LINESTRING) i += 8ul * nd * cnt;
    else
      for (uint32_t k = 0; k < cnt; k++) {
        if (low == T_POLYGON) {
          uint32_t rn = u32(i);
          for (int m = 0; m < 4; m++) at.push_back(i + m);
          i += 4 + 8ul * nd * rn;
        } else
          geom();
      }
  };
  geom();
  (void)n;
}
static void sc_header() {
  Geom g = stored(gen_geom(gen_opts(2)));
  Bytes b;
  WkbOpts o;
  bool le = !flip();
  o.little = [le] { return le; };
  o.ewkb = flip();
  o.srid = o.ewkb;
  wkb(g, b, o);
  std::vector<size_t> at, endian;
  header_bytes(b.data(), b.size(), at, endian);
  if (flip()) {
    static const int vals[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 100, 127, 128, 160, 192, 224, 232, 255};
    size_t i = at[(size_t)choose((int)at.size())];
    b[i] = (uint8_t)vals[choose(18)];
    parse_check(b, -1, !vf::thorough());
  } else {
    static const int vals[] = {2, 3, 16, 127, 128, 254, 255};
    size_t i = endian[(size_t)choose((int)endian.size())];
    b[i] = (uint8_t)vals[choose(7)];
    parse_check(b, WKBParser::INVALID_ENDIAN, !vf::thorough());
  }
}
// every type code
static void sc_types() {
  Values v;
  int gt = choose(12), k = choose(12), flags = choose(8);
  uint32_t t = (uint32_t)gt + 1000u * (uint32_t)k;
  bool le = !flip();
  bool member = flip();
  Bytes b;
  if (member) {
    b.push_back(le ? 1 : 0);
    put32(b, 7, le);
    put32(b, 1, le);
  }
  b.push_back(le ? 1 : 0);
  put32(b, t | (flags & 1 ? 0x80000000u : 0) | (flags & 2 ? 0x40000000u : 0) | (flags & 4 ? 0x20000000u : 0), le);
  if (flags & 4) put32(b, 4326, le);
  int nd = 2 + ((flags & 1) || k == 1 || k == 3) + ((flags & 2) || k == 2 || k == 3);
  auto coord = [&](int n) {
    for (int i = 0; i < n; i++) {
      C4 c = v.c();
      for (int j = 0; j < nd; j++) put64(b, c.v[j], le);
    }
  };
  if (gt == T_POINT) coord(1);
  else if (gt == T_LINESTRING) put32(b, 2, le), coord(2);
  else if (gt == T_POLYGON) put32(b, 1, le), put32(b, 3, le), coord(3);
  else put32(b, 0, le);
  parse_check(b, gt < 1 || gt > 7 || k > 3 ? (int)WKBParser::INVALID_GEOMETRY_TYPE : -1);
}

// counts that do not fit in the blob, or in 32 bits once multiplied
static void sc_counts() {
  static const uint32_t ns[] = {0,          1,          2,          3,          0x10000000u, 0x08000000u, 0x20000000u, 0x20000001u,
                                0x0fffffffu, 0x10000001u, 0x0aaaaaabu, 0x15555556u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu};
  int gt = 2 + choose(6), dims = 1 + choose(4);
  uint32_t n = ns[choose(16)];
  bool le = !flip();
  int tail = choose(4);
  Bytes b;
  b.push_back(le ? 1 : 0);
  put32(b, (uint32_t)(gt + 1000 * (dims - 1)), le);
  if (gt == T_POLYGON) put32(b, 1, le);
  put32(b, n, le);
  Values v;
  for (int i = 0; i < tail; i++) {
    C4 c = v.c();
    for (int j = 0; j < kND[dims]; j++) put64(b, c.v[j], le);
  }
  parse_check(b, -1);
}

// deeply nested collections
static void sc_deep() {
  static const int ds[] = {1, 2, 30, 31, 32, 33, 100, 254, 255, 256, 257, 1000, 60000, 1000000};
  int d = ds[choose(vf::thorough() ? 14 : 13)];
  int inner = choose(3), kind = choose(2);
  Bytes b;
  for (int i = 0; i < d; i++) {
    b.push_back(1);
    put32(b, kind ? (uint32_t)(4 + i % 4) : 7, true);
    put32(b, i + 1 < d || inner ? 1 : 0, true);
  }
  if (inner) {
    b.push_back(1);
    put32(b, 1, true);
    put64(b, 3, true);
    put64(b, 4, true);
    if (inner == 2) b.resize(b.size() - 1);
  }
  Exact e(b.data(), b.size());
  WKBParser parser;
  WKBGeometry w;
  used(parser, w);
  op();
  WKBParser::Status st = parser.Parse(exact_ptr(e), e.n, &w);
  vf::state((uint64_t)d * 8 + (uint64_t)st);
  note("depth %d inner %d -> %d", d, inner, (int)st);
  if (d <= 100 && inner < 2 && st != WKBParser::OK) fail("deep", fmt("%d levels were rejected", d));
  if (inner == 2 && st == WKBParser::OK) fail("deep", "truncated blob accepted");
  if (st == WKBParser::OK) {
    int n = 0;
    w.VisitVertices<XY>([&](XY c) {
      n++;
      if (c[0] != 3 || c[1] != 4) fail("deep", "wrong coordinate");
    });
    if (n != (inner == 1)) fail("deep", "wrong number of coordinates");
    int depth = 0;
    const WKBGeometry* p = &w;
    while (p->NumGeometries()) p = &p->Geometry(0), depth++;
    if (depth != d - 1 + (inner == 1)) fail("deep", fmt("depth %d instead of %d", depth, d - 1 + (inner == 1)));
  }
}

// sizes beyond 32 bits (only the first bytes exist and none behind them may be read)
static void sc_size() {
  Values v;
  Geom g = stored(shape(1 + choose(7), 1 + choose(4), choose(3), v));
  Bytes b;
  wkb(g, b, WkbOpts());
  Exact e(b.data(), b.size());
  WKBParser parser;
  WKBGeometry w;
  const uint8_t* cur = nullptr;
  size_t size = e.n + ((size_t)1 << (32 + choose(3)));
  WKBParser::Status st;
  op();
  if (flip()) st = parser.Parse(GeoArrowBufferView{e.p, (int64_t)size}, &w, &cur);
  else st = parser.Parse(e.p, size, &w, &cur);
  if (st != WKBParser::TOO_MANY_BYTES || cur != e.p + e.n) fail("size", "a blob of more than 4 GiB gives " + parser.ErrorToString(st));
  expect_geom(w, g, e.p);
}

// one parser and one geometry for a history of blobs
static void sc_history() {
  int n = vf::thorough() ? 4 : 3;
  WKBParser parser;
  WKBGeometry w, kept;
  if (w.NumSequences() || w.NumGeometries() || w.srid != WKBGeometry::kSridUnset) fail("default", "a new geometry is not empty");
  std::vector<std::unique_ptr<Exact>> blobs;
  int k_at = choose(n);
  Geom kept_g;
  for (int i = 0; i < n; i++) {
    Values v;
    v.next = 1 + 1000 * i;
    int t = choose(7), var = choose(3);
    Geom g = stored(shape(t + 1, 1 + (i + t) % 4, var, v));
    if (i == k_at) g.dims = 1 + (g.dims + 1) % 4;
    if (i == k_at) g = stored(shape(t + 1, g.dims, var, v));
    Bytes b;
    WkbOpts o;
    bool le = i % 2;
    o.little = [le] { return le; };
    o.ewkb = t % 2;
    o.srid = o.srid_all = t % 4 == 1;
    wkb(g, b, o);
    bool broken = choose(3) == 2;
    if (broken) b.pop_back();
    blobs.emplace_back(new Exact(b.data(), b.size()));
    op();
    WKBParser::Status st = parser.Parse(exact_ptr(*blobs.back()), b.size(), &w);
    if (st != (broken ? WKBParser::TOO_FEW_BYTES : WKBParser::OK)) fail("status", "wrong status in a history");
    if (!broken) {
      expect_geom(w, g, b.data());
      WKBGeometry copy = w;
      expect_geom(copy, g, b.data());
    }
    if (i == k_at && !broken) {
      kept = w;  // a copy does not change when the original is used again
      kept_g = g;
    }
  }
  if (kept_g.type) {
    Geom got = decode(kept);
    if (!geq(got, kept_g)) fail("copy", "a copy became " + str(got) + " instead of " + str(kept_g));
    WKBGeometry moved = std::move(kept);
    if (!geq(decode(moved), kept_g)) fail("copy", "a moved geometry differs");
  }
  w.Reset();
  if (w.NumSequences() || w.NumGeometries() || w.srid != WKBGeometry::kSridUnset || w.geometry_type != GEOARROW_GEOMETRY_TYPE_GEOMETRY ||
      w.dimensions != GEOARROW_DIMENSIONS_UNKNOWN)
    fail("reset", "a reset geometry is not empty");
}

// arrays of blobs
template <typename A>
static void check_wkb_array(const A& a, const std::vector<Geom>& gs, const std::vector<std::string>& blobs, const std::vector<int>& kind, int from, int n) {
  if (a.value.length != n) fail("length", "wrong length");
  Seq v, e;
  bool broken = false;
  int first_bad = -1;
  for (int i = 0; i < n; i++) {
    op(2);
    int k = kind[from + i];
    if (a.is_valid(i) != (k != 3) || a.is_null(i) != (k == 3)) fail("validity", fmt("row %d has the wrong validity", i));
    GeoArrowBufferView b = a.value.blob(i);
    const std::string& w = blobs[from + i];
    if (b.size_bytes != (int64_t)w.size() || (w.size() && memcmp(b.data, w.data(), w.size()))) fail("blob", fmt("wrong blob %d", i));
    if (k == 2 && !broken) broken = true, first_bad = i;
    if (k < 2 && !broken) flat_vertices(gs[from + i], v), flat_edges(gs[from + i], e);
  }
  // element by element
  auto it = a.value.begin();
  for (int i = 0; i < n; i++, ++it) {
    op();
    if (kind[from + i] == 3) continue;
    bool threw = false;
    try {
      const WKBGeometry& g = *it;
      if (kind[from + i] != 2) {
        Geom got = decode(g);
        if (!geq(got, gs[from + i])) fail("row", fmt("row %d is ", i) + str(got) + " instead of " + str(gs[from + i]));
      }
    } catch (geoarrow::Exception& x) {
      threw = true;
      if (x.message.find(std::to_string(i)) == std::string::npos) fail("message", "the message does not name the row: " + x.message);
    }
    if (threw != (kind[from + i] == 2)) fail("row", fmt("row %d: %s", i, threw ? "a valid blob was refused" : "an invalid blob was accepted"));
  }
  if (it != a.value.end() || it - a.value.begin() != n) fail("iterator", "the end is not behind the last row");
  // all at once
  Seq gv, ge;
  bool t1 = false, t2 = false;
  try {
    a.template VisitVertices<XYZM>([&](XYZM c) { gv.push_back(vals(c)); });
  } catch (geoarrow::Exception&) {
    t1 = true;
  }
  try {
    a.template VisitEdges<XYZM>([&](XYZM p, XYZM q) {
      ge.push_back(vals(p));
      ge.push_back(vals(q));
    });
  } catch (geoarrow::Exception&) {
    t2 = true;
  }
  if (t1 != broken || t2 != broken) fail("visit", "an invalid blob was passed over, or a valid one refused");
  same("VisitVertices", gv, v, 4);
  same("VisitEdges", ge, e, 4);
  (void)first_bad;
  if (!broken) check_all_visits(a, v, e);
}
static void sc_array() {
  int n = choose(vf::thorough() ? 5 : 4);
  std::vector<Geom> gs;
  std::vector<std::string> blobs;
  std::vector<bool> ok;
  std::vector<int> kind;
  Values v;
  bool any_null = false;
  for (int i = 0; i < n; i++) {
    int k = choose(4);  // two kinds of geometries, broken, null
    kind.push_back(k);
    Geom g = stored(shape(k == 0 ? T_GC : i % 2 ? T_MULTILINESTRING : T_POLYGON, 1 + (i + k) % 4, 2, v));
    gs.push_back(g);
    Bytes b;
    WkbOpts o;
    o.little = [i] { return i % 2 == 0; };
    wkb(g, b, o);
    if (k == 2) b.resize(b.size() - 3);
    if (k == 3) b.resize((size_t)choose(2) * 3), any_null = true;
    blobs.emplace_back(b.begin(), b.end());
    ok.push_back(k != 3);
  }
  NatOpts o;
  o.off[0] = choose(2) * 5;
  o.lead[0] = choose(2) * 2;
  o.trail = flip();
  o.validity = any_null || flip();
  bool large = flip();
  Owned own;
  build_serialized(blobs, ok, o, own, large);
  int from = choose(n + 1), len = choose(n - from + 1);
  if (large) {
    WKBArray<int64_t> a;
    a.value.offset = own.a.offset;
    a.value.length = n;
    a.value.offsets = (const int64_t*)own.a.buffers[1];
    a.value.data = (const uint8_t*)own.a.buffers[2];
    a.validity = (const uint8_t*)own.a.buffers[0];
    check_wkb_array(a.Slice(from, len), gs, blobs, kind, from, len);
  } else {
    GeoArrowArrayView view;
    GeoArrowError e;
    if (GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_WKB) || GeoArrowArrayViewSetArray(&view, &own.a, &e)) fail("init", "array view not initialised");
    WKBArray<int32_t> a;
    if (a.Init(&view)) fail("init", "WKB array not initialised");
    if (from == 0 && len == n) check_wkb_array(a, gs, blobs, kind, 0, n);
    auto s = a.Slice(from, len);
    check_wkb_array(s, gs, blobs, kind, from, len);
    if (len > 1) check_wkb_array(s.Slice(1, len - 1), gs, blobs, kind, from + 1, len - 1);
  }
  vf::state((uint64_t)n * 100 + (uint64_t)from * 10 + (uint64_t)len);
}

int main(int argc, char** argv) {
  return vf::main_(
      argc, argv,
      {{"valid", sc_valid, true, "all geometry trees with up to 3 (4) members, depth 3 (up to 2 (3): with mixed dimensions) x every byte order of every header x ISO/EWKB/SRIDs "
                                 "(x 4 earlier uses of the parser x 2 entry points)"},
       {"truncate", sc_truncate, true, "all trees with up to 2 members in all encodings cut at every byte"},
       {"trailing", sc_trailing, true, "the same with 1-3 bytes behind"},
       {"header", sc_header, true, "trees with up to 2 members: every byte of every type and count replaced by 18 values, every endian flag by 7"},
       {"types", sc_types, true, "12 x 12 type codes x EWKB flags x byte orders, at the root and as a member"},
       {"counts", sc_counts, true, "16 counts around overflows x 6 types x 4 dimensions x 4 sizes"},
       {"deep", sc_deep, true, "collections nested up to 60000 (1000000) levels"},
       {"size", sc_size, true, "blobs said to have more than 4 GiB"},
       {"history", sc_history, true, "all histories of 3 (4) blobs of 7 types x 3 shapes, some truncated, through one parser and geometry, with copies"},
       {"array", sc_array, true, "up to 3 (4) rows of 4 kinds (valid, broken, null) x 32 and 64 bit offsets x offsets x all slices"}});
}
