// C12: kernels over every batching of the input.
#include "h.h"
using namespace h;

static std::string options(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string s;
  auto i32 = [&](int32_t x) { s.append((char*)&x, 4); };
  i32((int32_t)kv.size());
  for (auto& p : kv) {
    i32((int32_t)p.first.size());
    s += p.first;
    i32((int32_t)p.second.size());
    s += p.second;
  }
  return s;
}

enum K { VOID, VOID_AGG, VISIT, WKT_, AS, TYPES, BOX, BOX_AGG, NK };
static const char* kName[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
static bool is_agg(int k) { return k == VOID_AGG || k == VISIT || k == TYPES || k == BOX_AGG; }

struct Kern {
  GeoArrowKernel k;
  GeoArrowError err;
  int rc;
  explicit Kern(const char* n) {
    memset(&k, 0, sizeof k);
    memset(&err, 0, sizeof err);
    op();
    rc = GeoArrowKernelInit(&k, n, nullptr);
  }
  ~Kern() {
    if (!rc && k.release) k.release(&k);
  }
  void release() {
    op();
    k.release(&k);
    if (k.release) fail("release", "the kernel is not marked as released");
  }
};

// How rows are encoded
struct Enc {
  int kind;  // 0 WKB, 1 WKT, 2 large WKB, 3 large WKT, 4 native
  NType t;
  int type() const {
    static const int k[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT};
    return kind == 4 ? t.type() : k[kind];
  }
  bool text() const { return kind == 1 || kind == 3; }
  std::string name() const { return kind == 4 ? fmt("native %d dims %d %s", t.geometry_type, t.dims, t.interleaved ? "i" : "s") : fmt("enc %d", kind); }
};
static void build(const Enc& e, const std::vector<Feat>& fs, const NatOpts& o, Owned& out) {
  if (e.kind == 4) {
    build_native(e.t, fs, o, out);
    return;
  }
  std::vector<std::string> ss;
  std::vector<bool> ok;
  for (auto& f : fs) {
    std::string s;
    if (!f.null) {
      if (e.text()) {
        WktOpts w;
        w.flat = false;
        s = wkt(f.g, w);
      } else {
        Bytes b;
        wkb(f.g, b, WkbOpts());
        s.assign((char*)b.data(), b.size());
      }
    }
    ss.push_back(s);
    ok.push_back(!f.null);
  }
  build_serialized(ss, ok, o, out, e.kind >= 2);
}

static const double kInf = INFINITY;
// The rows: null, empty, shapes, and shapes with NaN or infinite ordinates.
static Feat row(const Enc& e, int variant, Values& v, bool mixed) {
  Feat f;
  f.null = variant == 0;
  if (f.null) return f;
  int gt = e.kind == 4 ? e.t.geometry_type : T_POLYGON, dims = e.kind == 4 ? e.t.dims : 1;
  if (mixed) {
    static const int kT[] = {0, T_LINESTRING, T_GC, T_POINT, T_MULTIPOLYGON, T_MULTIPOINT, T_GC};
    static const int kD[] = {0, 1, 4, 2, 1, 3, 1};
    gt = kT[variant];
    dims = kD[variant];
  }
  int n = variant == 1 ? 0 : variant == 2 ? 1 : 2;
  if (gt == T_POINT && n) n = 1;
  if (mixed && variant == 3) n = 1;
  f.g = shape(gt, dims, n, v);
  if (variant == 3) each_coord(f.g, [&](C4& c) { c.v[0] = -c.v[0]; });
  int i = 0;
  if (variant == 4) each_coord(f.g, [&](C4& c) {
    if (i++ % 3 == 0) c.v[0] = NAN;
  });
  if (variant == 5) each_coord(f.g, [&](C4& c) {
    if (i % 3 == 0) c.v[1] = -kInf;
    if (i++ % 3 == 1) c.v[0] = kInf;
  });
  if (mixed && variant == 6) {  // empties in front of the first coordinate
    f.g = mk(T_GC, 1);
    f.g.parts.push_back(mk(T_LINESTRING, 1));
    f.g.parts.push_back(mk(T_GC, 1));
    f.g.parts.push_back(shape(T_LINESTRING, 1, 1, v));
  }
  return f;
}

struct Bounds {
  double lo[2] = {kInf, kInf}, hi[2] = {-kInf, -kInf};
  void add(Geom g) {
    each_coord(g, [&](C4& c) {
      for (int i = 0; i < 2; i++) {
        if (c.v[i] < lo[i]) lo[i] = c.v[i];
        if (c.v[i] > hi[i]) hi[i] = c.v[i];
      }
    });
  }
  bool is(const BoxVal& b) const { return b.v[0] == lo[0] && b.v[1] == lo[1] && b.v[2] == hi[0] && b.v[3] == hi[1]; }
  std::string str() const { return fmt("(%g %g %g %g)", lo[0], lo[1], hi[0], hi[1]); }
};
static bool has_coords(const Enc& e, const Geom& g) {
  // an empty point is a point of NaNs except in text
  if (count_coords(g)) return true;
  if (e.text()) return false;
  if (g.type == T_POINT) return true;
  for (auto& p : g.parts)
    if (has_coords(e, p)) return true;
  return false;
}

static std::string boxes(const std::vector<BoxVal>& b) {
  std::string s;
  for (auto& x : b) s += x.null ? " null" : fmt(" (%g %g %g %g)", x.v[0], x.v[1], x.v[2], x.v[3]);
  return s;
}

static Geom dense(const Geom& g) {
  Geom r = mk(g.type, g.dims);
  r.coords = g.coords;
  for (auto& x : g.rings)
    if (!x.empty()) r.rings.push_back(x);
  for (auto& p : g.parts)
    if (count_coords(p)) r.parts.push_back(dense(p));
  return r;
}
static Geom promoted(const Geom& src, const NType& t) {
  Geom g = remap(src, t.dims);
  if (g.type == t.geometry_type) return g;
  Geom m = mk(t.geometry_type, t.dims);
  if (count_coords(g)) m.parts.push_back(g);
  return m;
}

// The output of one batch of a kernel that works row by row.
static void check_rows(int k, int as_type, const NType& ast, const std::vector<Feat>& in, const ArrowArray* a, const std::string& what) {
  if (a->length != (int64_t)in.size()) fail("rows", what + fmt(": %ld rows out of %zu", (long)a->length, in.size()));
  try {
    if (k == VOID) {
      if (a->n_buffers || a->n_children || a->null_count != a->length) fail("void", what + ": not an array of nulls");
    } else if (k == BOX) {
      auto b = decode_box(1, a);
      for (size_t i = 0; i < in.size(); i++) {
        if (b[i].null != in[i].null) fail("boxnull", what + fmt(": validity of box %zu", i));
        if (in[i].null) continue;
        Bounds e;
        e.add(in[i].g);
        if (!e.is(b[i])) fail("box", what + fmt(": box %zu of", i) + boxes(b) + " is not " + e.str());
      }
      int64_t nulls = 0;
      for (auto& f : in) nulls += f.null;
      if (a->null_count != -1 && a->null_count != nulls) fail("nullcount", what + fmt(": null count %ld", (long)a->null_count));
    } else if (k == WKT_ || as_type == GEOARROW_TYPE_WKT || as_type == GEOARROW_TYPE_WKB) {
      auto r = decode_serialized(a);
      for (size_t i = 0; i < in.size(); i++) {
        if (r[i].null != in[i].null) fail("validity", what + fmt(": validity of row %zu", i));
        if (in[i].null) continue;
        Geom g;
        if (as_type == GEOARROW_TYPE_WKB && k == AS) {
          if (parse_wkb((const uint8_t*)r[i].s.data(), r[i].s.size(), g) != V_OK) fail("wkb", what + ": invalid WKB");
        } else if (int vd = parse_wkt(r[i].s, g); vd != V_OK && vd != V_MAY) fail("wkt", what + ": invalid WKT " + quote(r[i].s));
        if (!geq(canon(g), canon(in[i].g))) fail("cast", what + fmt(": row %zu is ", i) + str(g) + " instead of " + str(in[i].g));
      }
    } else {
      auto r = decode_native(ast, a);
      for (size_t i = 0; i < in.size(); i++) {
        Feat e = in[i];
        if (!e.null) e.g = promoted(canon(e.g), ast);
        // an empty point may become a member or none
        Feat got = canon(r[i]);
        if (!got.null && !e.null) got.g = dense(got.g), e.g = dense(e.g);
        if (!feq(got, e)) fail("cast", what + fmt(": row %zu is ", i) + str(r[i]) + " instead of " + str(e));
      }
    }
  } catch (Invalid& e) {
    fail("invalid", what + ": invalid array: " + e.why);
  }
}
static void check_agg(int k, const Enc& enc, const std::vector<Feat>& in, const ArrowArray* a, const std::string& what) {
  try {
    if (k == VISIT || k == VOID_AGG) {
      if (a->length != 1 || a->null_count != 1) fail("void", what + ": not a single null");
    } else if (k == TYPES) {
      std::set<int32_t> e;
      for (auto& f : in)
        if (!f.null && has_coords(enc, f.g)) e.insert((f.g.dims - 1) * 1000 + f.g.type);
      if (a->n_buffers != 2 || a->null_count > 0 || (a->length && !a->buffers[1])) fail("invalid", what + ": not an integer array");
      std::vector<int32_t> got((const int32_t*)a->buffers[1] + a->offset, (const int32_t*)a->buffers[1] + a->offset + a->length);
      if (got != std::vector<int32_t>(e.begin(), e.end())) {
        std::string s = what + ": types are";
        for (int x : got) s += fmt(" %d", x);
        s += " instead of";
        for (int x : e) s += fmt(" %d", x);
        fail("types", s);
      }
    } else {
      auto b = decode_box(1, a);
      if (b.size() != 1 || b[0].null) fail("rows", what + ": not a single box");
      Bounds e;
      for (auto& f : in)
        if (!f.null) e.add(f.g);
      if (!e.is(b[0])) fail("box", what + ": bounds" + boxes(b) + " are not " + e.str());
    }
  } catch (Invalid& e) {
    fail("invalid", what + ": invalid array: " + e.why);
  }
}

static Enc pick_enc(bool& mixed) {
  Enc e;
  e.t = NType{0, 0, false};
  e.kind = choose(5);
  mixed = e.kind < 4 && choose(2);
  if (e.kind == 4) e.t = NType{1 + choose(6), 1 + choose(4), (bool)choose(2)};
  return e;
}

static void start(Kern& k, const Enc& e, int as_type, const std::string& what) {
  OwnedSchema in, out;
  if (GeoArrowSchemaInitExtension(&in.s, (GeoArrowType)e.type())) fail("schema", "schema");
  std::string o = options({{"type", fmt("%d", as_type)}});
  Exact eo(o.data(), o.size());
  op();
  int rc = k.k.start(&k.k, &in.s, as_type ? (const char*)eo.p : nullptr, &out.s, &k.err);
  if (rc) fail("start", what + fmt(": start failed with code %d: %s", rc, k.err.message));
  if (!out.s.release) fail("start", what + ": no output type");
}

static void batches() {
  bool mixed;
  Enc e = pick_enc(mixed);
  int k = choose(NK);
  int as = 0;
  NType ast{0, 0, false};
  if (k == AS) {
    int a = choose(mixed ? 2 : 6);
    int gt = e.kind == 4 ? e.t.geometry_type : T_POLYGON, dims = e.kind == 4 ? e.t.dims : 1;
    if (a == 0) as = GEOARROW_TYPE_WKB;
    if (a == 1) as = GEOARROW_TYPE_WKT;
    if (a == 2) ast = NType{gt, dims, true};
    if (a == 3) ast = NType{gt, dims, false};
    if (a == 4) ast = NType{gt <= T_POLYGON ? gt + 3 : gt, dims, true};
    if (a == 5) ast = NType{gt, dims == 4 ? 1 : 4, false};
    if (a > 1) as = ast.type();
  }
  int n = vf::thorough() ? 4 : 3;
  if (!vf::thorough() && (k <= VISIT || (e.kind == 4 && (e.t.dims == 2 || e.t.dims == 3)) || e.kind == 2 || e.kind == 3)) n = 2;
  Values v;
  std::vector<Feat> rows;
  int nvar = mixed ? 7 : 6;
  int nulls = 0;
  for (int i = 0; i < n; i++) {
    rows.push_back(row(e, choose(nvar), v, mixed));
    nulls += rows.back().null;
  }
  (void)nulls;
  int s1 = choose(n + 1), s2 = s1 + choose(n - s1 + 1);
  NatOpts o;
  int slice = vf::thorough() ? choose(3) : n == 2 ? choose(2) : s1 == 1;
  if (slice) {
    o.off[0] = slice == 1 ? 3 : 8;
    o.off[1] = o.off[2] = slice;
    o.lead[0] = 1;
    o.trail = true;
    o.validity = true;
    o.null_content = true;
    if (slice == 2) o.null_count = -1;
  }
  std::string what = fmt("%s of %s to %d rows ", kName[k], e.name().c_str(), as) + str(rows) + fmt(" split at %d and %d slice %d", s1, s2, slice);
  note("%s", what.c_str());
  Kern kern(kName[k]);
  if (kern.rc) fail("init", what + ": not initialised");
  start(kern, e, as, what);
  int from = 0;
  for (int b = 0; b < 3; b++) {
    int to = b == 0 ? s1 : b == 1 ? s2 : n;
    std::vector<Feat> part(rows.begin() + from, rows.begin() + to);
    Owned in, out;
    build(e, part, o, in);
    op();
    int rc = kern.k.push_batch(&kern.k, &in.a, is_agg(k) ? nullptr : &out.a, &kern.err);
    if (rc) fail("push", what + fmt(": push_batch %d failed with code %d: %s", b, rc, kern.err.message));
    if (!is_agg(k)) check_rows(k, as, ast, part, &out.a, what + fmt(" batch %d", b));
    from = to;
  }
  op();
  if (is_agg(k)) {
    Owned out;
    int rc = kern.k.finish(&kern.k, &out.a, &kern.err);
    if (rc) fail("finish", what + fmt(": finish failed with code %d", rc));
    check_agg(k, e, rows, &out.a, what);
    vf::state(vf::hash_str(what));
  } else {
    int rc = kern.k.finish(&kern.k, nullptr, &kern.err);
    if (rc) fail("finish", what + fmt(": finish failed with code %d", rc));
    vf::state(vf::hash_str(what));
  }
  kern.release();
}

// One row of any structure, with members of any dimensions, between two fixed ones.
static void trees() {
  Enc e;
  e.kind = choose(2);
  GenOpts go;
  go.budget = vf::thorough() ? 4 : 3;
  go.max_depth = 3;
  go.mixed = 1;
  if (!vf::thorough()) go.dims_mask = 0x16;
  Feat f, first, last;
  f.g = gen_geom(go);
  int k = choose(5);
  int around = vf::thorough() ? choose(3) : k % 3;
  static const int kK[] = {WKT_, AS, TYPES, BOX, BOX_AGG};
  k = kK[k];
  int as = k != AS ? 0 : e.kind ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT;
  Values v;
  std::vector<Feat> rows;
  first.null = true;
  last.g = shape(T_LINESTRING, 2, 2, v);
  if (around == 1) rows.push_back(first);
  if (around == 2) rows.push_back(last);
  rows.push_back(f);
  if (around) rows.push_back(around == 1 ? last : first);
  std::string what = fmt("%s of %s to %d rows ", kName[k], e.name().c_str(), as) + str(rows);
  note("%s", what.c_str());
  Kern kern(kName[k]);
  start(kern, e, as, what);
  Owned in, out;
  build(e, rows, NatOpts(), in);
  op(2);
  int rc = kern.k.push_batch(&kern.k, &in.a, is_agg(k) ? nullptr : &out.a, &kern.err);
  if (rc) fail("push", what + fmt(": push_batch failed with code %d: %s", rc, kern.err.message));
  rc = kern.k.finish(&kern.k, is_agg(k) ? &out.a : nullptr, &kern.err);
  if (rc) fail("finish", what + fmt(": finish failed with code %d", rc));
  if (is_agg(k)) check_agg(k, e, rows, &out.a, what);
  else check_rows(k, as, NType{0, 0, 0}, rows, &out.a, what);
  vf::state(vf::hash_str(what));
}

// Long sequences: the extreme value in every position around internal chunks.
static void long_rows() {
  Enc e;
  bool mixed;
  (void)mixed;
  e.kind = choose(3) == 0 ? 0 : choose(2) ? 1 : 4;
  e.t = NType{T_LINESTRING, vf::thorough() ? 1 + choose(4) : 1 + 3 * choose(2), (bool)choose(2)};
  static const int kLen[] = {1, 65, 3072, 3073, 2, 63, 64, 256, 3071, 6145};
  int n = kLen[choose(vf::thorough() ? 10 : 4)];
  static const int kPos[] = {0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 2047, 2048, 3071, 3072, 3073, 6143, 6144};
  int pos = kPos[choose(19)];
  vf::assume(pos < n);
  int where = choose(4);
  Feat f;
  f.g = mk(T_LINESTRING, e.t.dims);
  Values v;
  for (int i = 0; i < n; i++) f.g.coords.push_back(C4{{(double)(i % 10), (double)(i % 7), -5, 1e9}});
  f.g.coords[pos].v[where / 2] = where & 1 ? 1000 : -1000;
  std::vector<Feat> rows = {f};
  for (int k : {BOX, BOX_AGG, TYPES, AS}) {
    std::string what = fmt("%s of a line of %d with an extreme at %d in %s", kName[k], n, pos, e.name().c_str());
    Kern kern(kName[k]);
    start(kern, e, k == AS ? GEOARROW_TYPE_WKB : 0, what);
    Owned in, out;
    build(e, rows, NatOpts(), in);
    op(2);
    if (kern.k.push_batch(&kern.k, &in.a, is_agg(k) ? nullptr : &out.a, &kern.err)) fail("push", what + ": push_batch failed");
    if (is_agg(k) && kern.k.finish(&kern.k, &out.a, &kern.err)) fail("finish", what + ": finish failed");
    if (is_agg(k)) check_agg(k, e, rows, &out.a, what);
    else check_rows(k, GEOARROW_TYPE_WKB, NType{0, 0, 0}, rows, &out.a, what);
    vf::state(vf::hash_str(what));
  }
}

// Output types, and inputs that have to be rejected.
static void types() {
  int k = choose(NK);
  static const int kIn[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT_VIEW,
                            1, 2, 3, 4, 5, 6, 1001, 2002, 3003, 10004, 11005, 12006, 13001, GEOARROW_TYPE_BOX};
  int ii = choose(22);
  static const int kEdges[] = {GEOARROW_EDGE_TYPE_PLANAR, GEOARROW_EDGE_TYPE_SPHERICAL, GEOARROW_EDGE_TYPE_VINCENTY, GEOARROW_EDGE_TYPE_KARNEY};
  int edges = kEdges[choose(4)];
  bool crs = choose(2);
  GeoArrowMetadataView mv;
  memset(&mv, 0, sizeof mv);
  mv.edge_type = (GeoArrowEdgeType)edges;
  if (crs) {
    mv.crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
    mv.crs = sv("\"EPSG:1\"");
  }
  OwnedSchema in, out;
  if (ii < 20) {
    if (GeoArrowSchemaInitExtension(&in.s, (GeoArrowType)kIn[ii])) fail("schema", fmt("schema of %d", kIn[ii]));
    if (GeoArrowSchemaSetMetadata(&in.s, &mv)) fail("schema", "metadata");
  } else {
    vf::assume(!crs && edges == GEOARROW_EDGE_TYPE_PLANAR);
    if (ArrowSchemaInitFromType(&in.s, ii == 20 ? NANOARROW_TYPE_INT32 : NANOARROW_TYPE_BINARY)) fail("schema", "schema");
  }
  int as = 0;
  std::string opt;
  static const int kAs[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, 1, 2, 3, 4, 5, 6, 1003, 12006, GEOARROW_TYPE_BOX, GEOARROW_TYPE_LARGE_WKB, 0, 7, 99999, -1, -2};
  int ai = 0;
  if (k == AS) {
    ai = choose(17);
    as = kAs[ai];
    opt = ai == 15 ? options({}) : ai == 16 ? options({{"types", "1"}}) : options({{"x", "y"}, {"type", fmt("%d", as)}});
  } else if (k == WKT_ || choose(2)) {
    opt = options({{"precision", "3"}});
  }
  Exact eo(opt.data(), opt.size());
  std::string what = fmt("start of %s for %d edges %d crs %d as %d", kName[k], ii < 20 ? kIn[ii] : -ii, edges, (int)crs, ai < 15 ? as : -ai);
  note("%s", what.c_str());
  Kern kern(kName[k]);
  op();
  int rc = kern.k.start(&kern.k, &in.s, opt.empty() ? nullptr : (const char*)eo.p, &out.s, &kern.err);
  vf::state(vf::mix(vf::hash_str(what), rc));
  bool readable = ii < 20;
  int want = 0;  // 1: accept, 2: reject, 0: either
  if (k == VOID || k == VOID_AGG) want = 1;
  else if (!readable) want = 2;
  else if (k == BOX || k == BOX_AGG) want = edges == GEOARROW_EDGE_TYPE_PLANAR ? 1 : 2;
  else if (k == AS) want = ai < 10 ? 1 : ai >= 11 ? 2 : 0;
  else want = 1;
  if (readable && kIn[ii] == GEOARROW_TYPE_BOX && want == 1 && rc) want = 0;
  if (want == 1 && rc) fail("rejected", what + fmt(": rejected with code %d: %s", rc, kern.err.message));
  if (want == 2 && !rc) fail("accepted", what + ": accepted");
  if (rc) {
    kern.release();
    return;
  }
  std::string f = out.s.format ? out.s.format : "";
  if ((k <= VISIT) && f != "n") fail("outtype", what + ": output " + f);
  if (k == WKT_ && f != "u") fail("outtype", what + ": output " + f);
  if (k == TYPES && f != "i") fail("outtype", what + ": output " + f);
  if (k == BOX || k == BOX_AGG || k == AS) {
    GeoArrowSchemaView v;
    if (GeoArrowSchemaViewInit(&v, &out.s, nullptr)) fail("outtype", what + ": the output type is invalid");
    int exp = k == AS ? as : GEOARROW_TYPE_BOX;
    if ((int)v.type != exp) fail("outtype", what + fmt(": output type %d instead of %d", v.type, exp));
    GeoArrowMetadataView m;
    if (GeoArrowMetadataViewInit(&m, v.extension_metadata, nullptr)) fail("metadata", what + ": invalid metadata");
    if (m.edge_type != mv.edge_type) fail("edges", what + fmt(": edges became %d", m.edge_type));
    std::string c(m.crs.data ? m.crs.data : "", m.crs.data ? (size_t)m.crs.size_bytes : 0);
    if (m.crs_type != mv.crs_type || c != (crs ? "\"EPSG:1\"" : "")) fail("crs", what + ": the CRS became " + quote(c));
  }
  kern.release();
}

// Every sequence of calls: no leak, no crash, right results where they are defined.
static void lifecycle() {
  int k = choose(NK);
  std::string what = kName[k];
  Kern kern(kName[k]);
  if (kern.rc) fail("init", what + ": not initialised");
  int depth = vf::thorough() ? 6 : 5;
  bool released = false;
  Enc enc;
  enc.kind = 0;
  Enc cur = enc;
  bool started = false;    // last start succeeded and results are defined
  bool exact = true;       // aggregate over all pushed rows is defined
  std::vector<Feat> seen;
  Values v;
  Enc wktenc;
  wktenc.kind = 1;
  int starts = 0;
  for (int i = 0; i < depth && !released; i++) {
    int o = choose(8);
    switch (o) {
      case 0:
      case 1: {
        what += o ? " start(wkt)" : " start(wkb)";
        OwnedSchema in, out;
        if (GeoArrowSchemaInitExtension(&in.s, (GeoArrowType)(o ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB))) fail("schema", "schema");
        std::string opt = options({{"type", "100001"}});
        opt = options({{"type", fmt("%d", GEOARROW_TYPE_WKB)}});
        Exact eo(opt.data(), opt.size());
        op();
        int rc = kern.k.start(&kern.k, &in.s, (const char*)eo.p, &out.s, &kern.err);
        if (rc && starts == 0) fail("start", what + fmt(": start failed with code %d", rc));
        started = !rc;
        if (!rc) cur = o ? wktenc : enc;
        if (starts++) exact = false;
        break;
      }
      case 2: {
        what += " start(int)";
        OwnedSchema in, out;
        if (ArrowSchemaInitFromType(&in.s, NANOARROW_TYPE_INT32)) fail("schema", "schema");
        op();
        int rc = kern.k.start(&kern.k, &in.s, nullptr, &out.s, &kern.err);
        if (!rc && k > VOID_AGG) fail("accepted", what + ": accepted");
        if (rc && starts) started = false;
        break;
      }
      case 3:
      case 4: {
        what += o == 3 ? " push" : " push(invalid)";
        std::vector<Feat> rows;
        for (int j = 0; j < 2; j++) rows.push_back(row(enc, o == 3 ? (j ? 0 : 2) : 3, v, false));
        Owned in, out;
        if (o == 3) build(cur, rows, NatOpts(), in);
        else if (cur.kind == 0) {
          Bytes b;
          wkb(rows[0].g, b, WkbOpts());
          std::string s((char*)b.data(), b.size());
          build_serialized({s, s.substr(0, s.size() - 5)}, {true, true}, NatOpts(), in);
        } else
          build_serialized({wkt(rows[0].g, WktOpts()), "POINT (1 2"}, {true, true}, NatOpts(), in);
        op();
        int rc = kern.k.push_batch(&kern.k, &in.a, is_agg(k) ? nullptr : &out.a, &kern.err);
        if (!started && k > VOID_AGG) {
          exact = false;
          break;
        }
        if (o == 3) {
          if (rc) fail("push", what + fmt(": push_batch failed with code %d: %s", rc, kern.err.message));
          for (auto& f : rows) seen.push_back(f);
          if (!is_agg(k)) check_rows(k, GEOARROW_TYPE_WKB, NType{0, 0, 0}, rows, &out.a, what);
        } else {
          if (!rc && k > VOID_AGG && k != TYPES) fail("accepted", what + ": an invalid batch is accepted");
          exact = false;
        }
        break;
      }
      case 5: {
        what += " finish";
        Owned out;
        op();
        int rc = kern.k.finish(&kern.k, is_agg(k) ? &out.a : nullptr, &kern.err);
        if (rc && started) fail("finish", what + fmt(": finish failed with code %d", rc));
        if (!rc && started && exact && is_agg(k)) check_agg(k, cur, seen, &out.a, what);
        exact = false;
        break;
      }
      case 6:
        if (!is_agg(k)) {
          what += " finish(out)";
          Owned out;
          op();
          if (!kern.k.finish(&kern.k, &out.a, &kern.err)) fail("finish", what + ": finish of a row kernel gave an array");
        } else {
          what += " push(out)";
          vf::assume(!started);
          Owned in, out;
          build(enc, {}, NatOpts(), in);
          op();
          kern.k.push_batch(&kern.k, &in.a, &out.a, &kern.err);
        }
        break;
      case 7:
        what += " release";
        kern.release();
        released = true;
        break;
    }
    note("%s", what.c_str());
  }
  vf::state(vf::hash_str(what));
  if (!released) kern.release();
}

static void names() {
  static const char* kBad[] = {"", "voi", "void_", "VOID", "box_", "box_agg2", "as_geoarro", "format_wkt ", "unique_geometry_types"};
  const char* n = kBad[choose(9)];
  Kern k(n);
  if (k.rc == 0) fail("name", std::string("a kernel named ") + n + " exists");
  GeoArrowScalarUdfFactory f;
  memset(&f, 0, sizeof f);
  GeoArrowError err;
  op();
  if (GeoArrowScalarUdfFactoryInit(&f, n, nullptr, &err) == 0) fail("name", std::string("a scalar function named ") + n + " exists");
  vf::state(vf::hash_str(n));
}

static void udf() {
  GeoArrowScalarUdfFactory f;
  memset(&f, 0, sizeof f);
  GeoArrowError err;
  op();
  if (GeoArrowScalarUdfFactoryInit(&f, "void", nullptr, &err)) fail("init", "factory");
  int n = 1 + choose(3);
  std::vector<GeoArrowScalarUdf> u(n);
  std::string what = "scalar udf:";
  for (auto& x : u) {
    memset(&x, 0, sizeof x);
    op();
    f.new_scalar_udf_impl(&f, &x);
  }
  bool first = choose(2);
  if (first) {
    what += " factory released first;";
    f.release(&f);
    if (f.release) fail("release", what + " the factory is not marked as released");
  }
  int depth = vf::thorough() ? 6 : 5;
  for (int i = 0; i < depth; i++) {
    int w = choose(n), o = choose(4);
    GeoArrowScalarUdf& x = u[w];
    if (!x.release) continue;
    op();
    if (o == 0) {
      OwnedSchema s;
      if (x.init(&x, nullptr, nullptr, 0, &s.s)) fail("init", what + " init failed");
      if (strcmp(s.s.format, "n")) fail("type", what + " wrong type");
    } else if (o == 1) {
      Owned a;
      int64_t rows = choose(3) * 7;
      if (x.execute(&x, nullptr, 0, rows, &a.a)) fail("execute", what + " execute failed");
      if (a.a.length != rows || a.a.null_count != rows || a.a.n_buffers) fail("execute", what + " not an array of nulls");
    } else if (o == 2) {
      (void)x.get_last_error(&x);
    } else {
      x.release(&x);
      if (x.release) fail("release", what + " the function is not marked as released");
    }
  }
  for (auto& x : u)
    if (x.release) {
      x.release(&x);
      if (x.release) fail("release", what + " the function is not marked as released");
    }
  if (f.release) {
    f.release(&f);
    if (f.release) fail("release", what + " the factory is not marked as released");
  }
  vf::state(vf::hash_str(what) + n);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"batches", batches, true, "8 kernels x all inputs of 2 or 3 (4) rows from 6 or 7 kinds x all divisions into 3 batches x 2 (3) slices x 8 serialized and 48 native inputs x up to 6 casts"},
                    {"trees", trees, true, "all geometries with <=3 (4) members, members of any dimensions, x WKB/WKT x 5 kernels x 3 neighbourhoods"},
                    {"long_rows", long_rows, true, "lines of up to 6145 coordinates with the extreme at each chunk border"},
                    {"types", types, true, "8 kernels x 22 input schemas x 4 edge types x CRS x 17 cast options"},
                    {"lifecycle", lifecycle, true, "all sequences of up to 5 (6) of 8 kernel calls for every kernel"},
                    {"names", names, true, "9 unknown names"},
                    {"udf", udf, true, "all sequences of 5 (6) calls on up to 3 scalar functions of a factory"}});
}
