// C03: chains of conversions among WKB, WKT, geometry objects and native arrays.
#include "h.h"
using namespace h;

enum F { WKB, WKT, NATI, NATS, GEOM, GEOM_APPEND, NF };
static const char* kF[] = {"wkb", "wkt", "interleaved", "separated", "geometry", "geometry+append"};

// Data in one of the formats.
struct Stage {
  int f = 0, type = 0;
  Owned a;
  std::vector<std::unique_ptr<Geometry>> gs;
  std::vector<bool> null;
  bool array() const { return f < GEOM; }
};

static int type_for(int f, const Geom& g) {
  if (f == WKB) return GEOARROW_TYPE_WKB;
  if (f == WKT) return GEOARROW_TYPE_WKT;
  return type_of(g.type, g.dims, f == NATI);
}

static void die(const char* what, int rc, const std::string& path, const GeoArrowError& e) {
  fail("error", fmt("%s failed with code %d (%s) in ", what, rc, e.message) + path);
}

// Sends the rows of a stage one by one to a visitor.
static int send_row(Stage& s, ArrReader* r, int i, GeoArrowVisitor* v) {
  op();
  if (s.array()) return GeoArrowArrayReaderVisit(&r->r, i, 1, v);
  if (s.null[i]) {
    Feat f;
    f.null = true;
    return emit_feat(f, v);
  }
  return GeoArrowGeometryVisit(&s.gs[i]->g, v);
}

static void hop(Stage& s, Stage& d, int f, const Geom& proto, size_t rows, const std::string& path) {
  GeoArrowError e;
  memset(&e, 0, sizeof e);
  d.f = f;
  d.type = f < GEOM ? type_for(f, proto) : 0;
  std::unique_ptr<ArrReader> r;
  if (s.array()) {
    r.reset(new ArrReader(s.type));
    if (r->rc) die("reader init", r->rc, path, e);
    int rc = GeoArrowArrayReaderSetArray(&r->r, &s.a.a, &e);
    if (rc) die("set array", rc, path, e);
    if ((size_t)s.a.a.length != rows) fail("rows", fmt("%ld rows instead of %zu in ", (long)s.a.a.length, rows) + path);
  }
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  v.error = &e;
  if (f < GEOM) {
    bool append = s.f == GEOM_APPEND && f != WKT;
    if (append && f == WKB) {
      WkbWriter w;
      for (size_t i = 0; i < rows; i++) {
        op();
        int rc = s.null[i] ? GeoArrowWKBWriterAppendNull(&w.w) : GeoArrowWKBWriterAppend(&w.w, GeoArrowGeometryAsView(&s.gs[i]->g));
        if (rc) die("append", rc, path, e);
      }
      int rc = GeoArrowWKBWriterFinish(&w.w, &d.a.a, &e);
      if (rc) die("finish", rc, path, e);
    } else if (append) {
      NatWriter w(d.type);
      for (size_t i = 0; i < rows; i++) {
        op();
        int rc = s.null[i] ? GeoArrowNativeWriterAppendNull(&w.w) : GeoArrowNativeWriterAppend(&w.w, GeoArrowGeometryAsView(&s.gs[i]->g), &e);
        if (rc) die("append", rc, path, e);
      }
      int rc = GeoArrowNativeWriterFinish(&w.w, &d.a.a, &e);
      if (rc) die("finish", rc, path, e);
    } else {
      ArrWriter w(d.type);
      if (w.rc) die("writer init", w.rc, path, e);
      int rc = GeoArrowArrayWriterInitVisitor(&w.w, &v);
      if (rc) die("visitor init", rc, path, e);
      v.error = &e;
      if (s.array()) {
        op();
        rc = GeoArrowArrayReaderVisit(&r->r, 0, (int64_t)rows, &v);
        if (rc) die("visit", rc, path, e);
      } else
        for (size_t i = 0; i < rows; i++)
          if ((rc = send_row(s, nullptr, (int)i, &v))) die("visit", rc, path, e);
      rc = GeoArrowArrayWriterFinish(&w.w, &d.a.a, &e);
      if (rc) die("finish", rc, path, e);
    }
    return;
  }
  for (size_t i = 0; i < rows; i++) {
    d.gs.emplace_back(new Geometry());
    GeoArrowGeometry* g = &d.gs.back()->g;
    bool null = s.array() ? s.a.a.buffers[0] && !bit(s.a.a.buffers[0], s.a.a.offset + (int64_t)i) : (bool)s.null[i];
    d.null.push_back(null);
    if (null) continue;
    int rc;
    op();
    if (!s.array()) {
      rc = s.f == GEOM ? GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&s.gs[i]->g), g) : GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&s.gs[i]->g), g);
    } else {
      GeoArrowGeometryInitVisitor(g, &v);
      rc = send_row(s, r.get(), (int)i, &v);
    }
    if (rc) die("geometry", rc, path, e);
  }
}

static bool lossy_empties(const std::vector<int>& fs, const Geom& g) {
  // writing to a native layout through events may omit what has no coordinates
  for (size_t i = 1; i < fs.size(); i++)
    if (fs[i] == NATI || fs[i] == NATS) {
      if (fs[i - 1] != GEOM_APPEND) return true;
      // (and what has no coordinates at all becomes the EMPTY of the array's type)
      if (g.type == T_MULTIPOINT || count_coords(g) == 0) return true;
    }
  return false;
}
static Geom dense(const Geom& g) {
  Geom r = mk(g.type, g.dims);
  r.coords = g.coords;
  for (auto& x : g.rings)
    if (!x.empty()) r.rings.push_back(x);
  for (auto& p : g.parts)
    if (count_coords(p)) r.parts.push_back(dense(p));
  return r;
}

static void chain(const std::vector<Feat>& rows, const Geom& proto, const std::vector<int>& fs) {
  std::string path = str(rows) + ":";
  for (int f : fs) path += std::string(" ") + kF[f];
  note("%s", path.c_str());
  std::vector<std::unique_ptr<Stage>> st;
  st.emplace_back(new Stage());
  Stage& s0 = *st[0];
  s0.f = fs[0];
  if (s0.f == WKB || s0.f == WKT) {
    std::vector<std::string> vs;
    std::vector<bool> ok;
    for (auto& f : rows) {
      Bytes b;
      if (!f.null) wkb(f.g, b, WkbOpts());
      vs.push_back(f.null ? "" : s0.f == WKT ? ref::wkt(f.g, WktOpts()) : std::string(b.begin(), b.end()));
      ok.push_back(!f.null);
    }
    build_serialized(vs, ok, NatOpts(), s0.a);
    s0.type = type_for(s0.f, proto);
  } else if (s0.f < GEOM) {
    build_native(NType{proto.type, proto.dims, s0.f == NATI}, rows, NatOpts(), s0.a);
    s0.type = type_for(s0.f, proto);
  } else {
    for (auto& f : rows) {
      s0.gs.emplace_back(new Geometry());
      s0.null.push_back(f.null);
      if (f.null) continue;
      Nodes n;
      n.add(f.g);
      op();
      if (GeoArrowGeometryDeepCopy(n.view(), &s0.gs.back()->g)) fail("error", "deep copy failed");
    }
  }
  for (size_t i = 1; i < fs.size(); i++) {
    st.emplace_back(new Stage());
    hop(*st[i - 1], *st[i], fs[i], proto, rows.size(), path);
  }
  Stage& z = *st.back();
  std::vector<Feat> got;
  try {
    if (z.f == WKB || z.f == WKT) {
      for (auto& b : decode_serialized(&z.a.a)) {
        Feat f;
        f.null = b.null;
        if (!b.null) {
          Verdict v = z.f == WKB ? parse_wkb((const uint8_t*)b.s.data(), b.s.size(), f.g) : parse_wkt(b.s, f.g);
          if (v != V_OK && v != V_MAY) fail("output", "the output is not valid: " + quote(b.s) + " in " + path);
        }
        got.push_back(canon(f));
      }
    } else if (z.f < GEOM)
      got = decode_native(NType{proto.type, proto.dims, z.f == NATI}, &z.a.a);
    else
      for (size_t i = 0; i < rows.size(); i++) {
        Rec rec;
        if (send_row(z, nullptr, (int)i, &rec.v)) fail("error", "the geometry cannot be visited");
        vf::raise_deferred();
        if (rec.feats.size() != 1) fail("error", "not one feature");
        got.push_back(canon(rec.feats[0]));
      }
  } catch (Invalid& i) {
    fail("invalid", "invalid array: " + i.why + " in " + path);
  }
  bool text = false;
  for (int f : fs) text = text || f == WKT;
  bool loose = false;
  for (auto& f : rows) loose = loose || (!f.null && lossy_empties(fs, f.g));
  std::vector<Feat> want;
  for (auto& f : rows) {
    Feat w = canon(f);
    if (text && !w.null)
      each_coord(w.g, [](C4& c) {
        for (int j = 0; j < 4; j++) c.v[j] = strtod(fmt_fixed(c.v[j], 16).c_str(), nullptr) + 0.0;  // text has no signed zero
      });
    if (loose) w.g = dense(w.g);
    want.push_back(w);
  }
  if (loose)
    for (auto& f : got)
      if (!f.null) f.g = dense(f.g);
  if (text)
    for (auto& f : got) each_coord(f.g, [](C4& c) {
      for (int j = 0; j < 4; j++) c.v[j] += 0.0;
    });
  for (auto& f : want) f = canon(f);
  for (auto& f : got) f = canon(f);
  if (!fseq(got, want)) fail("content", "got " + str(got) + ", expected " + str(want) + " in " + path);
  vf::state(vf::mix(ref::hash(got), vf::hash_str(path)));
}

static std::vector<int> gen_chain(const Geom& g, int maxhops) {
  std::vector<int> fs;
  int hops = 1 + choose(maxhops);
  for (int i = 0; i <= hops; i++) {
    int f = choose(NF);
    vf::assume(!(g.type == T_GC && (f == NATI || f == NATS)));
    vf::assume(!(f == GEOM_APPEND && i == hops));  // same as GEOM at the end
    fs.push_back(f);
  }
  return fs;
}

static void sc_trees() {
  GenOpts o;
  o.budget = vf::thorough() ? 5 : 4;
  o.max_depth = 3;
  if (!vf::thorough()) o.dims_mask = 0x16;
  Geom g = gen_geom(o);
  auto fs = gen_chain(g, 2);
  chain({Feat{false, g}}, g, fs);
}
static void sc_long_chains() {
  GenOpts o;
  o.budget = vf::thorough() ? 3 : 2;
  o.max_depth = 3;
  if (!vf::thorough()) o.dims_mask = 0x0C;
  Geom g = gen_geom(o);
  auto fs = gen_chain(g, vf::thorough() ? 4 : 3);
  chain({Feat{false, g}}, g, fs);
}
static void sc_rows() {
  int type = 1 + choose(7), dims = 1 + choose(4);
  Values vals;
  std::vector<Feat> rows;
  int n = choose(vf::thorough() ? 5 : 4);
  for (int i = 0; i < n; i++) {
    Feat f;
    int k = choose(4);
    if (k == 3) f.null = true;
    f.g = shape(type, dims, type == T_POINT ? k & 1 : k, vals);
    rows.push_back(f);
  }
  Geom proto = mk(type, dims);
  auto fs = gen_chain(proto, vf::thorough() || n < 3 ? 2 : 1);
  chain(rows, proto, fs);
}
// special ordinates
static void sc_values() {
  static const double kV[] = {0.0, -0.0, 0.1, -1e-300, 5e-324, 1.7976931348623157e308, 1e17, 123456789012345680.0, 1e16,
                              2.2250738585072014e-308, 1.0 / 3, -9007199254740993.0, 4503599627370497.5, 1e15 + 0.3, INFINITY, -INFINITY, NAN};
  int nv = 17;
  double x = kV[choose(nv)];
  double y = kV[choose(vf::thorough() ? nv : 5)];
  int type = 1 + choose(4);
  int dims = 1 + choose(4);
  Geom g = mk(type, dims);
  C4 c = {{x, y, y, x}}, d = {{1, x, y, x}};
  if (type == T_POINT) g.coords = {c};
  if (type == T_LINESTRING) g.coords = {c, d};
  if (type == T_POLYGON) g.rings = {{c, d}};
  if (type == T_MULTIPOINT) {
    Geom p = mk(T_POINT, dims);
    p.coords = {c};
    g.parts = {p};
  }
  auto fs = gen_chain(g, vf::thorough() ? 2 : 1);
  bool text = false;
  for (int f : fs) text = text || f == WKT;
  // text has no portable spelling of non-finite numbers
  bool finite = std::isfinite(x) && std::isfinite(y);
  vf::assume(!text || finite);
  // all-NaN points are empty points, which some formats keep and others drop
  vf::assume(!(x != x && y != y));
  chain({Feat{false, g}}, g, fs);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"trees", sc_trees, true, "all trees with up to 4 (5) members and 3 (4) dimensions x all chains of 2 and 3 of 6 formats"},
                    {"long_chains", sc_long_chains, true, "all trees with up to 2 (3) members x all chains of up to 4 (5) formats"},
                    {"rows", sc_rows, true, "28 types x all sequences of up to 3 (4) rows of 4 kinds x all chains of 2 (3) formats"},
                    {"values", sc_values, true, "17 x 5 (17) special ordinates x 4 types x 4 dimensions x all chains of 2 (3) formats"}});
}
