// C07: event streams of every reader, and what happens when the receiver fails.
#include "h.h"
using namespace h;

// Something that can be visited repeatedly.
struct Source {
  virtual ~Source() {}
  virtual int visit(GeoArrowVisitor* v) = 0;
  std::vector<Feat> rows;
  std::string name;
};

struct SWkb : Source {
  WkbReader r;
  Bytes b;
  Exact e;
  SWkb(const Geom& g, bool le, bool ewkb) : b(enc(g, le, ewkb)), e(b.data(), b.size()) {
    rows.push_back({false, g});
    name = "wkb";
  }
  static Bytes enc(const Geom& g, bool le, bool ewkb) {
    Bytes b;
    WkbOpts o;
    o.little = [le] { return le; };
    o.ewkb = ewkb;
    wkb(g, b, o);
    return b;
  }
  int visit(GeoArrowVisitor* v) override { return GeoArrowWKBReaderVisit(&r.r, bv(e), v); }
};
struct SWkt : Source {
  WktReader r;
  std::string s;
  Exact e;
  SWkt(const Geom& g, bool flat) : s(enc(g, flat)), e((const uint8_t*)s.data(), s.size()) {
    rows.push_back({false, g});
    name = "wkt";
  }
  static std::string enc(const Geom& g, bool flat) {
    WktOpts o;
    o.flat = flat;
    return ref::wkt(g, o);
  }
  int visit(GeoArrowVisitor* v) override { return GeoArrowWKTReaderVisit(&r.r, sv(e), v); }
};
struct SGeom : Source {
  Nodes n;
  Geometry g;
  int how;
  SGeom(const Geom& x, int how_, Nodes::Mode m, bool swap) : how(how_) {
    n.add(x, m, swap);
    rows.push_back({false, x});
    name = fmt("geometry%d", how);
    if (how == 1 && GeoArrowGeometryShallowCopy(n.view(), &g.g)) fail("copy", "shallow copy failed");
    if (how == 2 && GeoArrowGeometryDeepCopy(n.view(), &g.g)) fail("copy", "deep copy failed");
  }
  int visit(GeoArrowVisitor* v) override {
    if (how == 0) return GeoArrowGeometryViewVisit(n.view(), v);
    return GeoArrowGeometryVisit(&g.g, v);
  }
};
struct SArr : Source {
  std::unique_ptr<ArrReader> r;
  Owned a;
  int from = 0, n = 0;
  void open(int type) {
    r.reset(new ArrReader(type));
    if (r->rc) fail("init", "array reader not initialised");
    GeoArrowError e;
    if (GeoArrowArrayReaderSetArray(&r->r, &a.a, &e)) fail("set", "array not accepted");
    n = (int)a.a.length;
    name = fmt("array:%d", type);
  }
  int visit(GeoArrowVisitor* v) override { return GeoArrowArrayReaderVisit(&r->r, from, n, v); }
};

// Visits once in full, then with the receiver failing at an event, then again.
static void probe(Source& s) {
  std::vector<Feat> want;
  for (auto& f : s.rows) want.push_back(canon(f));
  auto full = [&](const char* when, long* nev) {
    Rec r;
    op();
    int rc = s.visit(&r.v);
    r.done();
    vf::raise_deferred();
    if (rc) fail("error:" + s.name, fmt("%s: visiting failed with code %d", when, rc));
    std::vector<Feat> got;
    for (auto& f : r.feats) got.push_back(canon(f));
    if (!fseq(got, want)) fail("content:" + s.name, std::string(when) + ": got " + str(got) + ", expected " + str(want));
    if (nev) *nev = r.nev;
    vf::state(r.h);
  };
  long nev = 0;
  full("first visit", &nev);
  static const int kCode[] = {EINVAL, EAGAIN, ENOMEM, 4711, -1, 1};
  int k = choose((int)nev);
  int code = kCode[choose(vf::thorough() ? 6 : 2)];
  {
    Rec r;
    r.check = false;
    r.fail_at = k;
    r.fail_code = code;
    op();
    int rc = s.visit(&r.v);
    note("%s: event %d of %ld fails with %d -> %d", s.name.c_str(), k, nev, code, rc);
    if (r.nev != k + 1) fail("calls:" + s.name, fmt("%ld more calls after the callback at event %d of %ld had failed", r.nev - k - 1, k, nev));
    if (rc != code) fail("code:" + s.name, fmt("event %d failed with code %d but %d was returned", k, code, rc));
  }
  full("after a failed visit", nullptr);
}

static GenOpts opts(int quick, int th) {
  GenOpts o;
  o.budget = vf::thorough() ? th : quick;
  o.max_depth = 3;
  return o;
}

static void sc_wkb() {
  Geom g = gen_geom(opts(4, 6));
  int k = choose(3);
  SWkb s(g, k != 1, k == 2);
  probe(s);
}
static void sc_wkt() {
  Geom g = gen_geom(opts(4, 6));
  // an empty collection has no dimensions of its own in WKT; the tag is always written
  SWkt s(g, flip());
  probe(s);
}
static void sc_geometry() {
  Geom g = gen_geom(opts(3, 5));
  int how = choose(3);
  int m = choose(4);
  bool swap = vf::thorough() ? flip() : m == 3;
  SGeom s(g, how, (Nodes::Mode)m, swap);
  probe(s);
}
static void sc_native() {
  NType t;
  t.geometry_type = 1 + choose(6);
  int c = choose(8);
  t.dims = 1 + c % 4;
  t.interleaved = c / 4;
  Values vals;
  SArr s;
  int n = 1 + choose(vf::thorough() ? 3 : 2);
  for (int i = 0; i < n; i++) {
    Feat f;
    int k = choose(vf::thorough() ? 5 : 4);
    if (k == 3) f.null = true;
    else f.g = shape(t.geometry_type, t.dims, t.geometry_type == T_POINT ? k & 1 : k == 4 ? 3 : k, vals);
    s.rows.push_back(f);
  }
  NatOpts o;
  if (flip()) o.off[0] = 2, o.off[1] = 1, o.lead[0] = 1;
  build_native(t, s.rows, o, s.a);
  s.open(t.type());
  probe(s);
}
static void sc_serialized() {
  static const int kT[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT};
  int ti = choose(4);
  SArr s;
  Values vals;
  std::vector<std::string> vs;
  std::vector<bool> ok;
  int n = 1 + choose(3);
  for (int i = 0; i < n; i++) {
    Feat f;
    int k = choose(4);
    static const int kG[] = {T_POINT, T_GC, T_POLYGON};
    if (k == 3) f.null = true;
    else f.g = shape(kG[k], 1 + i, k == 1 ? 2 : 1, vals);
    s.rows.push_back(f);
    Bytes b;
    if (!f.null) wkb(f.g, b, WkbOpts());
    vs.push_back(f.null ? "" : ti & 1 ? ref::wkt(f.g, WktOpts()) : std::string(b.begin(), b.end()));
    ok.push_back(!f.null);
  }
  build_serialized(vs, ok, NatOpts(), s.a, ti >= 2);
  s.open(kT[ti]);
  probe(s);
}
static void sc_box() {
  SArr s;
  std::vector<Feat> els;
  int n = 1 + choose(3);
  for (int i = 0; i < n; i++) {
    Feat e, r;
    int k = choose(3);
    double x0 = i + 1, y0 = 10 * i + 2, x1 = x0 + 3, y1 = y0 + 4;
    if (k == 1) x1 = x0 - 1;
    e.null = r.null = k == 2;
    e.g = mk(T_BOX, 1);
    e.g.coords.push_back(C4{{x0, y0, x1, y1}});
    els.push_back(e);
    r.g = mk(T_POLYGON, 1);
    if (k == 0)
      r.g.rings.push_back({C4{{x0, y0, 0, 0}}, C4{{x1, y0, 0, 0}}, C4{{x1, y1, 0, 0}}, C4{{x0, y1, 0, 0}}, C4{{x0, y0, 0, 0}}});
    s.rows.push_back(r);
  }
  NType t{T_BOX, 1, false};
  build_native(t, els, NatOpts(), s.a);
  s.open(t.type());
  probe(s);
}
// sequences longer than any internal buffer
static void sc_long() {
  static const int kN[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 3071, 3072, 3073, 6144, 6145};
  int n = kN[choose(20)];
  int dims = 1 + choose(4);
  bool poly = flip();
  Geom g = mk(poly ? T_POLYGON : T_LINESTRING, dims);
  std::vector<C4> c;
  for (int i = 0; i < n; i++) c.push_back(C4{{i + 0.5, -i + 0.25, i * 2.0, i * 3.0}});
  if (poly) g.rings = {c, {c[0], c[1]}};
  else g.coords = c;
  int k = choose(5);
  vf::assume(k != 1 || n < 1000 || (dims == 1 && n > 3000 && n < 3074));
  std::unique_ptr<Source> s;
  if (k == 0) s.reset(new SWkb(g, flip(), false));
  else if (k == 1) s.reset(new SWkt(g, true));
  else if (k == 2) s.reset(new SGeom(g, choose(3), flip() ? Nodes::INTERLEAVED : Nodes::SEPARATE, flip()));
  else {
    SArr* a = new SArr();
    s.reset(a);
    NType t{g.type, dims, k == 3};
    a->rows.push_back({false, g});
    build_native(t, a->rows, NatOpts(), a->a);
    a->open(t.type());
  }
  probe(*s);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"wkb", sc_wkb, true, "all trees with up to 4 (6) members x 3 encodings x every failing event x 2 (6) codes"},
                    {"wkt", sc_wkt, true, "all trees with up to 4 (6) members x 2 spellings x every failing event x codes"},
                    {"geometry", sc_geometry, true, "all trees with up to 3 (5) members x view/shallow/deep x 4 storages x every failing event x codes"},
                    {"native", sc_native, true, "48 types x up to 2 (3) rows of 4 (5) kinds x 2 layouts x every failing event x codes"},
                    {"serialized", sc_serialized, true, "4 types x up to 3 rows of 4 kinds x every failing event x codes"},
                    {"box", sc_box, true, "up to 3 boxes of 3 kinds x every failing event x codes"},
                    {"long", sc_long, true, "sequences of 20 lengths up to 6145 x 4 dimensions x all readers x every failing event x codes"}});
}
