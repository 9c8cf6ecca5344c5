#include "../lib/h.h"
using namespace h;

// Reads bytes with one reader and compares with the reference decoder.
// mode 0: Visit, 1: Read then visit the view
static void read_and_check(GeoArrowWKBReader* r, const Bytes& b, size_t n, int mode, const char* what,
                           const Geom* expect = nullptr) {
  Exact e(b.data(), n);
  Geom g;
  Verdict v = parse_wkb(e.p, e.n, g);
  if (expect && (v != V_OK || !geq(*expect, g)))
    if (!geq(canon(*expect), canon(g))) fail("harness", "reference decoder and encoder disagree");
  Rec rec;
  rec.strict = v == V_OK;
  rec.mixed_dims = true;
  rec.check = v != V_ANY;
  int rc;
  op();
  if (mode == 0) {
    rc = GeoArrowWKBReaderVisit(r, bv(e), &rec.v);
  } else {
    GeoArrowGeometryView gv;
    memset(&gv, 0xA5, sizeof gv);
    rc = GeoArrowWKBReaderRead(r, bv(e), &gv, &rec.err);
    if (rc == 0) {
      if (v == V_OK || v == V_MAY) {
        const GeoArrowGeometryNode* at = gv.root;
        check_nodes(g, at, gv.root + gv.size_nodes, 0, what);
        if (at != gv.root + gv.size_nodes) fail(fmt("%s:nodes", what), "too many nodes");
      }
      op();
      rc = GeoArrowGeometryViewVisit(gv, &rec.v);
    }
  }
  vf::op((uint64_t)rec.nev);
  if (vf::tracing())
    note("%s mode=%d wkb=%s -> rc=%d %s; expected %s %s", what, mode, hex(Bytes(b.begin(), b.begin() + n)).substr(0, 400).c_str(),
         rc, rec.feats.empty() ? "" : str(rec.feats[0]).substr(0, 600).c_str(), v == V_OK ? "ok" : v == V_ERR ? "error" : v == V_MAY ? "ok or error" : "unspecified",
         str(g).substr(0, 600).c_str());
  vf::state(vf::mix(vf::mix((uint64_t)rc, rec.h), ref::hash(rec.feats)));
  if (v == V_ANY) return;
  vf::raise_deferred();
  if (v == V_MAY && rc) return;
  if (v == V_ERR) {
    if (rc == 0) fail(fmt("%s:accepted", what), fmt("invalid WKB accepted: %s", hex(Bytes(b.begin(), b.begin() + n)).c_str()));
    return;
  }
  if (rc != 0) fail(fmt("%s:rejected", what), fmt("valid WKB rejected (%d, %s): %s = %s", rc, rec.err.message, hex(b).c_str(), str(g).c_str()));
  rec.done();
  vf::raise_deferred();
  if (rec.feats.size() != 1 || rec.feats[0].null || !geq(rec.feats[0].g, g))
    fail(fmt("%s:value", what), fmt("decoded %s but the bytes encode %s", str(rec.feats).c_str(), str(g).c_str()));
}

static Bytes enc(const Geom& g, int flavor, const std::function<bool()>& le) {
  WkbOpts o;
  o.little = le;
  o.ewkb = flavor > 0;
  o.srid = flavor == 2;
  o.srid_all = flavor == 3;
  Bytes b;
  wkb(g, b, o);
  return b;
}

static void sc_exact() {
  GenOpts go;
  go.budget = vf::thorough() ? 6 : 5;
  go.max_depth = 3;
  Geom g = gen_geom(go);
  int flavor = choose(3);
  int em = choose(4);  // LE, BE, alternating, alternating other phase
  int k = 0;
  auto le = [&] { int i = k++; return em == 0 ? true : em == 1 ? false : em == 2 ? i % 2 == 0 : i % 2 == 1; };
  Bytes b = enc(g, flavor, le);
  WkbReader r;
  read_and_check(&r.r, b, b.size(), vf::thorough() ? choose(2) : (flavor + em) & 1, "exact", &g);
}

// every combination of byte orders of the sub-geometries
static void sc_endian() {
  GenOpts go;
  go.budget = vf::thorough() ? 5 : 4;
  go.max_depth = 3;
  go.type_mask = 0xF0;
  Geom g = gen_geom(go);
  int flavor = choose(2) ? 3 : 0;
  Bytes b = enc(g, flavor, [] { return flip(); });
  WkbReader r;
  read_and_check(&r.r, b, b.size(), 0, "endian", &g);
}

// members with dimensions of their own
static void sc_mixed() {
  GenOpts go;
  go.budget = vf::thorough() ? 4 : 3;
  go.max_depth = 2;
  go.type_mask = 0xF0;
  go.mixed = 2;
  Geom g = gen_geom(go);
  int em = choose(2), k = 0;
  Bytes b = enc(g, choose(2) * 3, [&] { return em == 0 || k++ % 2 == 0; });
  WkbReader r;
  read_and_check(&r.r, b, b.size(), choose(2), "mixed", &g);
}

static void sc_truncate() {
  GenOpts go;
  go.budget = vf::thorough() ? 5 : 4;
  go.max_depth = 2;
  go.dims_mask = vf::thorough() ? 0x1E : 0x14;
  Geom g = gen_geom(go);
  int flavor = choose(2) * 2;
  bool le = flip();
  Bytes b = enc(g, flavor, [&] { return le; });
  size_t n = (size_t)choose((int)b.size());
  WkbReader r;
  int mode = choose(2);
  Geom t;
  if (parse_wkb(b.data(), n, t) == V_OK) fail("harness", "a strict prefix decodes");
  read_and_check(&r.r, b, n, mode, "truncate");
  // the reader still works
  read_and_check(&r.r, b, b.size(), mode, "after-error", &g);
}

static const uint32_t kVals[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 255, 256, 1000, 1001, 1002, 1003, 1007, 1008, 2001, 2004, 3001, 3003,
                                 3006, 3007, 3008, 4001, 5000, 0x7fffffff, 0x80000000u, 0x80000001u, 0x80000003u, 0x40000001u,
                                 0x40000004u, 0xC0000002u, 0xC0000007u, 0x20000001u, 0xE0000002u, 0x10000000u, 0x20000000u, 0x15555556u,
                                 0x0AAAAAABu, 0x08000000u, 0x04000000u, 0x40000000u, 0xfffffffeu, 0xffffffffu};

// replace one (thorough: two) 32-bit fields / single bytes
static void sc_mutate() {
  GenOpts go;
  go.budget = vf::thorough() ? 4 : 3;
  go.max_depth = 2;
  go.dims_mask = vf::thorough() ? 0x1E : 0x12;
  Geom g = gen_geom(go);
  bool le = flip();
  Bytes b = enc(g, 0, [&] { return le; });
  if (flip()) {
    int at = choose((int)b.size());
    static const int kB[] = {0, 1, 2, 3, 4, 6, 7, 8, 0x20, 0x40, 0x7f, 0x80, 0xC0, 0xE8, 0xff};
    uint8_t nb = (uint8_t)kB[choose(15)];
    b[at] = nb;
  } else {
    if (b.size() < 5) vf::assume(false);
    // only positions of header fields: 1, 5, and after
    int at = choose((int)b.size() - 4);
    uint32_t x = kVals[choose((int)(sizeof kVals / 4))];
    Bytes f;
    put32(f, x, le);
    memcpy(b.data() + at, f.data(), 4);
  }
  WkbReader r;
  read_and_check(&r.r, b, b.size(), vf::thorough() ? choose(2) : 0, "mutate");
}

// counts whose byte size wraps around in 32 or 64 bits
static void sc_counts() {
  int dims = 1 + choose(4);
  int nd = kND[dims];
  int kind = choose(4);  // linestring, polygon ring, polygon rings, multipoint
  bool le = flip();
  int base_sel = choose(5);
  uint64_t q = base_sel == 0 ? (1ULL << 32) : base_sel == 1 ? (1ULL << 32) / nd : base_sel == 2 ? (1ULL << 32) / (8 * nd)
               : base_sel == 3 ? (1ULL << 31) / (8 * nd) : (1ULL << 31) / nd;
  int mul = 1 + choose(4);
  int delta = choose(9) - 4;
  uint32_t cnt = (uint32_t)(q * mul + delta);
  int payload = choose(4);  // coordinates really present
  Bytes b;
  b.push_back(le);
  int t = kind == 0 ? T_LINESTRING : kind == 3 ? T_MULTIPOINT : T_POLYGON;
  put32(b, (uint32_t)(t + 1000 * (dims - 1)), le);
  if (kind == 1) put32(b, 1, le);
  put32(b, cnt, le);
  Values v;
  for (int i = 0; i < payload; i++) {
    C4 c = v.c();
    if (kind == 3) {
      b.push_back(le);
      put32(b, (uint32_t)(T_POINT + 1000 * (dims - 1)), le);
    }
    if (kind == 2) put32(b, 0, le);
    else
      for (int j = 0; j < nd; j++) put64(b, c.v[j], le);
  }
  WkbReader r;
  read_and_check(&r.r, b, b.size(), choose(2), "counts");
}

// sizes around the internal chunk boundaries
static void sc_long() {
  static const int ns[] = {1, 2, 5, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 288, 289, 383, 384, 385, 386, 400, 576, 577, 1000};
  int dims = 1 + choose(4);
  int n = ns[choose(28)];
  int kind = choose(4);
  Values v;
  auto seq = [&](int k) {
    std::vector<C4> s;
    for (int i = 0; i < k; i++) s.push_back(v.c());
    return s;
  };
  Geom g;
  if (kind == 0) {
    g = mk(T_LINESTRING, dims);
    g.coords = seq(n);
  } else if (kind == 1) {
    g = mk(T_POLYGON, dims);
    g.rings.push_back(seq(3));
    g.rings.push_back(seq(n));
    g.rings.push_back(seq(4));
  } else if (kind == 2) {
    g = mk(T_MULTILINESTRING, dims);
    for (int i = 0; i < 2; i++) {
      g.parts.push_back(mk(T_LINESTRING, dims));
      g.parts.back().coords = seq(n);
    }
  } else {
    g = mk(T_MULTIPOINT, dims);
    for (int i = 0; i < n; i++) {
      g.parts.push_back(mk(T_POINT, dims));
      g.parts.back().coords = seq(1);
    }
  }
  int em = choose(3), k = 0;
  Bytes b = enc(g, choose(2), [&] { int i = k++; return em == 0 ? true : em == 1 ? false : i % 2 == 0; });
  WkbReader r;
  read_and_check(&r.r, b, b.size(), choose(2), "long", &g);
}

// chains of nested collections
static void sc_nesting() {
  static const int ds[] = {1, 2, 3, 16, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000};
  int depth = ds[choose(26)];
  int leaf = choose(8);  // 0: empty innermost collection, else a geometry of that type
  int dims = 1 + choose(4);
  bool le = flip();
  Values v;
  Geom g = leaf == 0 ? mk(T_GC, dims) : shape(leaf, dims, leaf == T_GC ? 0 : 1, v);
  for (int i = 0; i < depth; i++) {
    Geom p = mk(T_GC, dims);
    p.parts.push_back(std::move(g));
    g = std::move(p);
  }
  Bytes b = enc(g, 0, [&] { return le; });
  int trunc = choose(3);
  size_t n = trunc == 0 ? b.size() : trunc == 1 ? b.size() - 1 : b.size() / 2;
  WkbReader r;
  read_and_check(&r.r, b, n, choose(2), "nesting");
}

// several reads on one reader
static void sc_history() {
  struct Item {
    Bytes b;
  };
  static std::vector<Bytes> items;
  if (items.empty()) {
    Values v;
    auto add = [&](const Geom& g, bool le, int fl) { items.push_back(enc(g, fl, [&] { return le; })); };
    add(shape(T_POINT, D_XY, 1, v), true, 0);
    add(shape(T_GC, D_XYZM, 3, v), false, 0);
    add(shape(T_MULTIPOLYGON, D_XYZ, 2, v), true, 2);
    add(shape(T_LINESTRING, D_XYM, 0, v), false, 1);
    add(shape(T_POLYGON, D_XY, 2, v), false, 0);
    Bytes t = items[2];
    t.resize(t.size() - 9);
    items.push_back(t);  // truncated
    Bytes u = items[1];
    u[1] = 0;
    u[4] = 99;
    items.push_back(u);  // bad type
    items.push_back(Bytes());  // empty
    Bytes w = items[4];
    w.resize(12);
    items.push_back(w);
  }
  WkbReader r;
  int len = vf::thorough() ? 5 : 4;
  for (int i = 0; i < len; i++) {
    const Bytes& b = items[choose((int)items.size())];
    read_and_check(&r.r, b, b.size(), i & 1, "history");
  }
}

// WKB arrays: errors in the middle stop the visit at that row
static void sc_array() {
  static std::vector<Bytes> items;
  static std::vector<Geom> geoms;
  if (items.empty()) {
    Values v;
    for (int i = 0; i < 3; i++) {
      Geom g = shape(i == 0 ? T_POINT : i == 1 ? T_MULTILINESTRING : T_POLYGON, 1 + i, 1 + (i > 0), v);
      geoms.push_back(g);
      items.push_back(enc(g, i % 3, [&] { return i != 1; }));
    }
    Bytes t = items[1];
    t.pop_back();
    items.push_back(t);
    geoms.push_back(Geom());
  }
  int n = choose(vf::thorough() ? 5 : 4);
  std::vector<std::string> vals;
  std::vector<bool> valid;
  std::vector<Feat> exp;
  bool failed = false;
  for (int i = 0; i < n; i++) {
    int k = choose(5);
    if (k == 4) {
      vals.push_back("");
      valid.push_back(false);
      if (!failed) {
        Feat f;
        f.null = true;
        exp.push_back(f);
      }
    } else {
      vals.emplace_back(items[k].begin(), items[k].end());
      valid.push_back(true);
      if (k == 3) failed = true;
      if (!failed) {
        Feat f;
        f.g = geoms[k];
        exp.push_back(f);
      }
    }
  }
  NatOpts o;
  o.off[0] = choose(2) * 3;
  o.lead[0] = choose(2) * 5;
  Owned a;
  build_serialized(vals, valid, o, a);
  ArrReader r(GEOARROW_TYPE_WKB);
  if (r.rc) fail("init", "reader init failed");
  Rec rec;
  op();
  int rc = GeoArrowArrayReaderSetArray(&r.r, &a.a, &rec.err);
  if (rc) fail("array:set", fmt("valid array rejected: %s", rec.err.message));
  op();
  rc = GeoArrowArrayReaderVisit(&r.r, 0, n, &rec.v);
  note("rows=%d failed=%d rc=%d got %s", n, (int)failed, rc, str(rec.feats).c_str());
  if (failed != (rc != 0)) fail("array:rc", fmt("row with invalid WKB: rc %d, expected %s", rc, failed ? "an error" : "success"));
  if (failed && rec.feats.size() > exp.size()) rec.feats.resize(exp.size());
  vf::state(vf::mix(rec.h, ref::hash(rec.feats)));
  vf::raise_deferred();
  if (!fseq(rec.feats, exp)) fail("array:value", fmt("got %s expected %s", str(rec.feats).c_str(), str(exp).c_str()));
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"exact", sc_exact, true, "trees with <=5 (thorough 6) members, depth<=3, all dims, ISO/EWKB/SRID, 4 byte order patterns, 2 entry points"},
                    {"endian", sc_endian, true, "collection trees with <=4 (5) members, every byte order per sub-geometry"},
                    {"mixed", sc_mixed, true, "collection trees with <=3 (4) members of any dimensions x ISO/EWKB with SRID x 2 byte order patterns x 2 entry points"},
                    {"truncate", sc_truncate, true, "trees with <=4 (5) members x every strict prefix, then a valid read on the same reader"},
                    {"mutate", sc_mutate, true, "trees with <=3 (4) members x 1 byte (15 values, every position) or 1 uint32 (45 values, every position) replaced"},
                    {"counts", sc_counts, true, "counts near every multiple of 2^31/2^32 over the coordinate size, 0..3 coordinates present"},
                    {"long", sc_long, true, "sequence lengths at and around 64/96/128/192/256/384 boundaries"},
                    {"nesting", sc_nesting, true, "26 nesting depths up to 1000 x 8 leaves x dims x byte order x 3 truncations"},
                    {"history", sc_history, true, "all sequences of 4 (5) reads from 9 inputs on one reader"},
                    {"array", sc_array, true, "all binary arrays with <=3 (4) rows from 3 geometries, null, invalid"}});
}
