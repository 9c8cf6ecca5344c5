// C08: any sequence of visitor events, in any order, to any visitor.
#include "h.h"
using namespace h;

// A receiver under test.  Rows are compared by count and nullness only: the content
// of features sent in a wrong order is unspecified, its structure is not.
struct Target {
  std::unique_ptr<WkbWriter> wkb;
  std::unique_ptr<WktWriter> wkt;
  std::unique_ptr<NatWriter> nat;
  std::unique_ptr<ArrWriter> arr;
  std::unique_ptr<Geometry> geo;
  NType nt{};
  int arr_type = 0;
  GeoArrowVisitor v;
  GeoArrowError err;
  std::string name;
  enum Kind { WKB, WKT, NATIVE, ARRAY, GEOM, VOID } kind;

  void init(Kind k, int t, int dims, bool inter, int maxsize, bool flat) {
    kind = k;
    memset(&v, 0, sizeof v);
    memset(&err, 0, sizeof err);
    v.error = &err;
    switch (k) {
      case WKB:
        wkb.reset(new WkbWriter());
        GeoArrowWKBWriterInitVisitor(&wkb->w, &v);
        name = "wkb";
        break;
      case WKT:
        wkt.reset(new WktWriter());
        wkt->w.max_element_size_bytes = maxsize;
        wkt->w.use_flat_multipoint = flat;
        GeoArrowWKTWriterInitVisitor(&wkt->w, &v);
        name = fmt("wkt%d", maxsize);
        break;
      case NATIVE:
        nt = {t, dims, inter};
        nat.reset(new NatWriter(nt.type()));
        if (nat->rc) fail("init", "native writer not initialised");
        if (GeoArrowNativeWriterInitVisitor(&nat->w, &v)) fail("init", "native visitor not initialised");
        name = fmt("native:%d", nt.type());
        break;
      case ARRAY:
        arr_type = t;
        arr.reset(new ArrWriter(t));
        if (arr->rc) fail("init", "array writer not initialised");
        if (GeoArrowArrayWriterInitVisitor(&arr->w, &v)) fail("init", "array visitor not initialised");
        name = fmt("array:%d", t);
        break;
      case GEOM:
        geo.reset(new Geometry());
        GeoArrowGeometryInitVisitor(&geo->g, &v);
        name = "geometry";
        break;
      case VOID:
        GeoArrowVisitorInitVoid(&v);
        name = "void";
        break;
    }
    v.error = &err;
  }
  bool batches() const { return kind <= ARRAY; }

  // the rows of the finished array; nullness only
  std::vector<bool> finish(std::vector<Feat>* feats = nullptr) {
    Owned out;
    int rc = 0;
    GeoArrowError e;
    memset(&e, 0, sizeof e);
    op();
    if (kind == WKB) rc = GeoArrowWKBWriterFinish(&wkb->w, &out.a, &e);
    if (kind == WKT) rc = GeoArrowWKTWriterFinish(&wkt->w, &out.a, &e);
    if (kind == NATIVE) rc = GeoArrowNativeWriterFinish(&nat->w, &out.a, &e);
    if (kind == ARRAY) rc = GeoArrowArrayWriterFinish(&arr->w, &out.a, &e);
    if (rc) fail("finish:" + name, fmt("finishing failed with code %d: %s", rc, e.message));
    std::vector<bool> r;
    try {
      if (kind == NATIVE) {
        auto f = decode_native(nt, &out.a);
        for (auto& x : f) r.push_back(x.null);
        if (feats) *feats = f;
      } else {
        auto b = decode_serialized(&out.a);
        for (auto& x : b) {
          r.push_back(x.null);
          if (feats) {
            Feat f;
            f.null = x.null;
            if (!x.null) {
              Verdict vd = kind == WKT || arr_type == GEOARROW_TYPE_WKT ? parse_wkt(x.s, f.g)
                                                                       : parse_wkb((const uint8_t*)x.s.data(), x.s.size(), f.g);
              if (vd != V_OK && vd != V_MAY) fail("reuse:" + name, "a feature sent in order was not written correctly");
              f.g = canon(f.g);
            }
            feats->push_back(f);
          }
        }
      }
    } catch (Invalid& i) {
      fail("invalid:" + name, "the finished array is not valid: " + i.why);
    }
    return r;
  }
};

struct Model {
  bool open = false, null = false;
  std::vector<bool> rows;
  uint64_t h = 0;
};

static std::vector<double> g_ord = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};

static int send_coords(GeoArrowVisitor* v, int n, int nv, bool inter) {
  // exactly the values the view describes
  std::unique_ptr<double[]> d(new double[n * nv ? n * nv : 1]);
  for (int i = 0; i < n * nv; i++) d[i] = g_ord[i % 12];
  GeoArrowCoordView c;
  memset(&c, 0, sizeof c);
  c.n_coords = n;
  c.n_values = nv;
  c.coords_stride = inter ? nv : 1;
  for (int j = 0; j < nv; j++) c.values[j] = d.get() + (inter ? j : j * n);
  return v->coords(v, &c);
}

enum Ev { FEAT_START, NULL_FEAT, RING_START, RING_END, GEOM_END, FEAT_END, COORDS1, COORDS2, COORDS0, G_POINT, G_LINE, G_POLY,
          G_MPOINT, G_GC, G_MLINE, G_MPOLY, G_BAD, FINISH, N_EV };
static const char* kEv[] = {"feat_start", "null_feat", "ring_start", "ring_end", "geom_end", "feat_end", "coords1", "coords2",
                            "coords0", "point", "line", "poly", "mpoint", "gc", "mline", "mpoly", "bad", "finish"};

// A model event; cd: dimensions passed, nv: values in coordinates
static void step(Target& t, Model& m, int e, int dims, int nv) {
  GeoArrowVisitor* v = &t.v;
  int rc = 0;
  op();
  auto gs = [&](int type) { rc = v->geom_start(v, (GeoArrowGeometryType)type, (GeoArrowDimensions)dims); };
  switch (e) {
    case FEAT_START:
      rc = v->feat_start(v);
      if (!rc) m.open = true, m.null = false;
      if (rc && t.batches()) fail("start:" + t.name, "a feature could not be started");
      break;
    case NULL_FEAT:
      rc = v->null_feat(v);
      if (!rc) m.null = true;
      break;
    case RING_START: rc = v->ring_start(v); break;
    case RING_END: rc = v->ring_end(v); break;
    case GEOM_END: rc = v->geom_end(v); break;
    case FEAT_END:
      rc = v->feat_end(v);
      if (!rc) {
        m.rows.push_back(m.null);
        if (!m.open) m.rows.back() = false;
        m.open = false;
        m.null = false;
      }
      break;
    case COORDS0: rc = send_coords(v, 0, nv, true); break;
    case COORDS1: rc = send_coords(v, 1, nv, true); break;
    case COORDS2: rc = send_coords(v, 2, nv, false); break;
    case G_POINT: gs(1); break;
    case G_LINE: gs(2); break;
    case G_POLY: gs(3); break;
    case G_MPOINT: gs(4); break;
    case G_MLINE: gs(5); break;
    case G_MPOLY: gs(6); break;
    case G_GC: gs(7); break;
    case G_BAD: gs(990); break;
    case FINISH:
      if (t.batches()) {
        auto r = t.finish();
        if (r != m.rows) fail("rows:" + t.name, fmt("%zu rows for %zu features that ended successfully, or wrong nulls", r.size(), m.rows.size()));
        m.rows.clear();
        m.open = m.null = false;
      } else if (t.kind == Target::GEOM) {
        Rec rec;
        rec.check = false;
        rec.strict = false;
        GeoArrowGeometryVisit(&t.geo->g, &rec.v);
      }
      break;
  }
  m.h = vf::mix(m.h, rc);
  note("%s -> %d", kEv[e], rc);
}

// After whatever happened: finish, then the visitor still works.
static void wrap_up(Target& t, Model& m) {
  vf::state(vf::hash_str(t.name, m.h));
  step(t, m, FINISH, 1, 2);
  Values vals;
  if (t.batches()) {
    std::vector<Feat> fs(3), want(3);
    int gt = t.kind == Target::NATIVE ? t.nt.geometry_type : (t.kind == Target::ARRAY && is_native(t.arr_type)) ? t.arr_type % 10 : T_GC;
    int dims = t.kind == Target::NATIVE ? t.nt.dims : 1;
    fs[0].g = shape(gt, dims, 1, vals);
    fs[1].null = true;
    fs[2].g = shape(gt, dims, gt == T_POINT ? 1 : 2, vals);
    for (auto& f : fs) {
      int rc = emit_feat(f, &t.v);
      if (rc && !(rc == EAGAIN && t.kind == Target::WKT)) fail("reuse:" + t.name, fmt("a correct feature was rejected with code %d", rc));
      if (rc) t.v.feat_end(&t.v);
    }
    if (t.kind == Target::WKT && t.wkt->w.max_element_size_bytes >= 0) {
      auto r = t.finish();
      if (r != std::vector<bool>{false, true, false}) fail("reuse:" + t.name, "wrong rows after reuse");
      return;
    }
    std::vector<Feat> got;
    t.finish(&got);
    for (auto& f : fs) f = canon(f);
    if (t.kind == Target::ARRAY && is_native(t.arr_type)) return;
    if (!fseq(got, fs)) fail("reuse:" + t.name, "got " + str(got) + ", expected " + str(fs));
  } else if (t.kind == Target::GEOM) {
    Feat f;
    f.g = shape(T_GC, 2, 2, vals);
    int rc = emit_feat(f, &t.v);
    if (rc) fail("reuse:geometry", "a correct feature was rejected");
    Rec rec;
    if (GeoArrowGeometryVisit(&t.geo->g, &rec.v)) fail("reuse:geometry", "the geometry cannot be visited");
    vf::raise_deferred();
    if (rec.feats.size() != 1 || !geq(rec.feats[0].g, f.g)) fail("reuse:geometry", "got " + str(rec.feats));
  }
  vf::raise_deferred();
}

static void pick_target(Target& t, bool small) {
  static const int kT[] = {1, 2, 3, 5, 6, 4};
  int k = choose(small ? 8 : 22);
  if (k == 0) t.init(Target::WKB, 0, 0, false, -1, true);
  else if (k == 1) t.init(Target::WKT, 0, 0, false, -1, true);
  else if (k == 2) t.init(Target::GEOM, 0, 0, false, -1, true);
  else if (k == 3) t.init(Target::WKT, 0, 0, false, 3, false);
  else if (small) t.init(Target::NATIVE, (int[]){1, 2, 5, 6}[k - 4], (int[]){1, 4, 2, 3}[k - 4], k & 1, -1, true);
  else if (k < 10) t.init(Target::NATIVE, kT[k - 4], 1 + (k & 3), true, -1, true);
  else if (k < 16) t.init(Target::NATIVE, kT[k - 10], 4 - (k & 3), false, -1, true);
  else if (k == 16) t.init(Target::ARRAY, GEOARROW_TYPE_WKB, 0, false, -1, true);
  else if (k == 17) t.init(Target::ARRAY, GEOARROW_TYPE_WKT, 0, false, -1, true);
  else if (k == 18) t.init(Target::VOID, 0, 0, false, -1, true);
  else if (k == 19) t.init(Target::WKT, 0, 0, false, 0, true);
  else t.init(Target::NATIVE, k == 20 ? 4 : 3, 4, k & 1, -1, true);
}

// every sequence of L events of the whole alphabet behind a prefix
static void sc_any() {
  Target t;
  pick_target(t, false);
  Model m;
  int len = vf::thorough() ? 5 : 3;
  for (int i = 0; i < len; i++) {
    int e = choose(N_EV);
    step(t, m, e, 1, 2);
  }
  wrap_up(t, m);
}

static const std::vector<std::vector<int>> kPrefix = {
    {},
    {FEAT_START},
    {FEAT_START, G_POINT, COORDS1, GEOM_END, FEAT_END},
    {FEAT_START, NULL_FEAT, FEAT_END},
    {FEAT_START, NULL_FEAT, FEAT_END, FEAT_START, G_POLY, RING_START, COORDS2},
    {FEAT_START, G_POLY, RING_START, COORDS2, RING_END},
    {FEAT_START, G_MPOINT, G_POINT, COORDS1},
    {FEAT_START, G_MPOLY, G_POLY, RING_START},
    {FEAT_START, G_GC, G_GC, G_LINE, COORDS2, GEOM_END, GEOM_END},
    {FEAT_START, G_LINE, COORDS2, FINISH},
    {FEAT_START, G_GC, G_POLY, RING_START, COORDS2, FINISH},
    {FEAT_START, G_LINE, COORDS2, GEOM_END, FEAT_END, FINISH, FEAT_START, NULL_FEAT, FEAT_END},
    {FEAT_START, NULL_FEAT, FINISH},
};

static void sc_prefix() {
  Target t;
  pick_target(t, true);
  Model m;
  auto& p = vf::pick(kPrefix);
  for (int e : p) step(t, m, e, 1, 2);
  static const int kE[] = {FEAT_START, NULL_FEAT, RING_START, RING_END, GEOM_END, FEAT_END, COORDS2, G_POINT, G_POLY, G_GC, FINISH, G_MPOINT};
  int len = vf::thorough() ? 6 : 4;
  for (int i = 0; i < len; i++) step(t, m, kE[choose(12)], 1, 2);
  wrap_up(t, m);
}

// dimensions that are wrong, or do not go with the coordinates
static void sc_dims() {
  Target t;
  pick_target(t, false);
  Model m;
  step(t, m, FEAT_START, 1, 2);
  int len = vf::thorough() ? 3 : 2;
  static const int kD[] = {1, 2, 4, 0, 255, 3, 5};
  for (int i = 0; i < len; i++) {
    static const int kG[] = {G_POINT, G_LINE, G_POLY, G_GC, G_MPOINT, G_BAD};
    bool full = i == 0;
    int e = kG[choose(full ? 6 : 4)];
    int d = kD[choose(full ? 7 : 3)];
    step(t, m, e, d, 2);
    int c = choose(full ? 5 : vf::thorough() ? 3 : 5);
    static const int kC[] = {-1, COORDS1, COORDS2, COORDS1, RING_START};
    static const int kV[] = {0, 2, 3, 4, 2};
    if (c) step(t, m, kC[c], 1, kV[c]);
  }
  int ends = choose(3);
  for (int i = 0; i < len + 1; i++) step(t, m, ends == 0 ? GEOM_END : (ends == 1) == (i == 0) ? RING_END : GEOM_END, 1, 2);
  step(t, m, FEAT_END, 1, 2);
  wrap_up(t, m);
}

// geometry types beyond the enumeration, in every place where a geometry can start
static void sc_types() {
  Target t;
  pick_target(t, false);
  Model m;
  static const std::vector<std::vector<int>> kP = {
      {}, {FEAT_START}, {FEAT_START, G_GC}, {FEAT_START, G_MPOINT}, {FEAT_START, G_MPOLY}, {FEAT_START, G_POLY}, {FEAT_START, G_POLY, RING_START, COORDS2},
      {FEAT_START, G_LINE, COORDS2}, {FEAT_START, G_GC, G_POINT, COORDS1, GEOM_END}, {FEAT_START, NULL_FEAT}, {FEAT_START, G_POINT, COORDS1, GEOM_END}};
  for (int e : vf::pick(kP)) step(t, m, e, 1, 2);
  static const int kT[] = {0, 8, 255, 257, 990, 1001, 65538, -1, -2147483647, 9, 16, 17, 100, 256, 991, 3007, 10001, 65536, 2147483647};
  static const int kD[] = {1, 2, 3, 4, 0, 5, 255};
  static const int kA[] = {GEOM_END, COORDS2, COORDS1, RING_START, G_POINT, FEAT_END, NULL_FEAT, FEAT_START, G_LINE};
  int rounds = vf::thorough() ? 2 : 1;
  for (int i = 0; i < rounds; i++) {
    int type = kT[choose(vf::thorough() && i == 0 ? 19 : 9)], dims = kD[choose(i ? 3 : 7)];
    op();
    int rc = t.v.geom_start(&t.v, (GeoArrowGeometryType)type, (GeoArrowDimensions)dims);
    m.h = vf::mix(m.h, rc);
    note("geom_start type %d dims %d -> %d", type, dims, rc);
    step(t, m, kA[choose(9)], 1, 2);
    step(t, m, kA[choose(vf::thorough() ? 9 : 4)], 1, 2 + choose(vf::thorough() ? 3 : 1));
  }
  wrap_up(t, m);
}

// deep nesting beyond every limit
static void sc_deep() {
  Target t;
  pick_target(t, false);
  Model m;
  int d = choose(36), r = choose(4);
  int rings = r == 0 ? 0 : r == 1 ? 1 : r == 2 ? 5 : 40;
  static const int kG[] = {G_GC, G_POLY, G_POINT, G_MPOINT};
  int g = kG[choose(4)];
  step(t, m, FEAT_START, 1, 2);
  for (int i = 0; i < d; i++) step(t, m, g, 1, 2);
  for (int i = 0; i < rings; i++) step(t, m, RING_START, 1, 2);
  step(t, m, COORDS2, 1, 2);
  int ends = choose(5);
  int re = ends == 0 ? 0 : ends == 1 ? rings : ends == 2 ? rings + 3 : ends == 3 ? 1 : 0;
  int ge = ends == 0 ? 0 : ends == 1 ? d : ends == 2 ? d + 3 : ends == 3 ? d / 2 : d + 45;
  for (int i = 0; i < re; i++) step(t, m, RING_END, 1, 2);
  for (int i = 0; i < ge; i++) step(t, m, GEOM_END, 1, 2);
  if (flip()) step(t, m, FEAT_END, 1, 2);
  wrap_up(t, m);
}

// events and appended geometries mixed, with features left open
static void sc_mixed() {
  Target t;
  int k = choose(13);
  if (k == 0) t.init(Target::WKB, 0, 0, false, -1, true);
  else t.init(Target::NATIVE, 1 + (k - 1) % 6, 1 + k % 4, k > 6, -1, true);
  Model m;
  int len = vf::thorough() ? 7 : 4;
  Values vals;
  for (int i = 0; i < len; i++) {
    int c = choose(9);
    static const int kE[] = {FEAT_START, NULL_FEAT, COORDS2, FEAT_END, FINISH, G_LINE, G_POINT};
    if (c < 7) {
      step(t, m, kE[c], 1, 2);
      continue;
    }
    op();
    int rc;
    if (c == 7) {
      rc = k == 0 ? GeoArrowWKBWriterAppendNull(&t.wkb->w) : GeoArrowNativeWriterAppendNull(&t.nat->w);
      if (rc) fail("append-null:" + t.name, "appending a null failed");
      m.rows.push_back(true);
    } else {
      Nodes n;
      n.add(shape(k == 0 ? T_GC : t.nt.geometry_type, 1, 2, vals));
      rc = k == 0 ? GeoArrowWKBWriterAppend(&t.wkb->w, n.view()) : GeoArrowNativeWriterAppend(&t.nat->w, n.view(), &t.err);
      if (rc) fail("append:" + t.name, "appending a geometry failed");
      m.rows.push_back(false);
    }
    m.open = m.null = false;
    note("append %d", c);
  }
  wrap_up(t, m);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"any", sc_any, true, "22 visitors x all sequences of 3 (thorough 5) of 18 events"},
                    {"prefix", sc_prefix, true, "8 visitors x 13 prefixes x all sequences of 4 (6) of 12 events"},
                    {"dims", sc_dims, true, "22 visitors x 2 (3) geometries with 6 types, 7 dimensions and 2..4 ordinates, any ends"},
                    {"types", sc_types, true, "22 visitors x 11 prefixes x 9 (19) invalid geometry types x 7 dimensions x 2 events (thorough: twice)"},
                    {"deep", sc_deep, true, "22 visitors x 0..35 nested geometries x 0..40 rings x 5 ways to end"},
                    {"mixed", sc_mixed, true, "13 writers x all sequences of 4 (7) of 7 events, null and geometry appended"}});
}
