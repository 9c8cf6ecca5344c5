// C09: every allocation of every operation fails, alone or with all later ones.
#include "h.h"
#include "vf_alloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#include <functional>
using namespace h;

// One run of a scenario. Operations are reported as they are made.
struct F {
  bool faulty = false;
  int goon = 0;  // 1: give up the feature that fails, 2: send the rest of its events too
  int errors = 0;
  long before = 0;
  std::string name;
  // true when the scenario is to go on
  bool step(const char* what, int rc) {
    op();
    long hits = vf_fault_hits();
    bool hit = hits > before;
    before = hits;
    note("%s = %d%s", what, rc, hit ? " (refused)" : "");
    if (hit && rc == 0) fail("silent", name + ": " + what + " succeeds although an allocation failed");
    if (!hit && rc && !errors) fail("error", name + ": " + what + fmt(" gives %d without a failed allocation", rc));
    if (rc) errors++;
    return rc == 0;
  }
};
#define STEP(x)                     \
  do {                              \
    if (!f.step(#x, (x))) return;   \
  } while (0)
// go on in spite of an error if the run is of that kind
#define TRY(x)                                \
  do {                                        \
    if (!f.step(#x, (x)) && !f.goon) return;  \
  } while (0)

static void explore(const std::string& name, const std::function<void(F&)>& body, bool can_go_on = false) {
  long live = vf_live();
  vf_alloc_reset();
  {
    F f;
    f.name = name;
    body(f);
  }
  long n = vf_alloc_count();
  if (vf_live() != live) fail("leak", name + " leaks without faults");
  vf::state(vf::mix(vf::hash_str(name), (uint64_t)n));
  if (n > 60000) n = 60000;
  vf::assume(n > 0);
  long at = choose((int)n);
  int persist = choose(2);
  F f;
  f.faulty = true;
  f.goon = can_go_on ? choose(3) : 0;
  f.name = name + fmt(", allocation %ld of %ld fails%s%s", at, n, persist ? " and all later ones" : "", f.goon == 0 ? "" : f.goon == 1 ? ", go on" : ", go on with the same feature");
  note("%s", f.name.c_str());
  vf_alloc_reset();
  vf_alloc_fail(at, persist);
  struct Off {
    ~Off() { vf_alloc_reset(); }
  } off;
  body(f);
  long hits = vf_fault_hits();
  vf_alloc_reset();
  if (!f.goon && hits && !f.errors) fail("silent", f.name + ": no operation reported it");
  if (vf_live() != live) fail("leak", f.name + fmt(": %ld allocations are not released", vf_live() - live));
  vf::state(vf::mix(vf::hash_str(f.name), (uint64_t)f.errors));
}

// Objects that are reset after a failed initialisation only when they say that they hold
// something (as the C++ wrappers do)
#define OBJECT(Name, Struct)                   \
  struct Name {                                \
    Struct o;                                  \
    Name() { memset(&o, 0, sizeof o); }        \
    ~Name() {                                  \
      if (o.private_data) Struct##Reset(&o);   \
    }                                          \
    Name(const Name&) = delete;                \
  };
OBJECT(OWkbReader, GeoArrowWKBReader)
OBJECT(OWktReader, GeoArrowWKTReader)
OBJECT(OWkbWriter, GeoArrowWKBWriter)
OBJECT(OWktWriter, GeoArrowWKTWriter)
OBJECT(ONative, GeoArrowNativeWriter)
OBJECT(OArrWriter, GeoArrowArrayWriter)
OBJECT(OArrReader, GeoArrowArrayReader)
OBJECT(OBuilder, GeoArrowBuilder)
struct OGeom {
  GeoArrowGeometry o;
  OGeom() { memset(&o, 0, sizeof o); }
  ~OGeom() {
    if (o.private_data) GeoArrowGeometryReset(&o);
  }
  OGeom(const OGeom&) = delete;
};
struct OKernel {
  GeoArrowKernel k;
  OKernel() { memset(&k, 0, sizeof k); }
  ~OKernel() {
    if (k.release) k.release(&k);
  }
  OKernel(const OKernel&) = delete;
};

static std::vector<int> all_types(bool views) {
  std::vector<int> o;
  for (int c = 0; c < 2; c++)
    for (int d = 1; d <= 4; d++)
      for (int g : {1, 2, 3, 4, 5, 6, 990}) {
        if (g == 990 && c) continue;
        o.push_back(NType{g, d, c == 1}.type());
      }
  for (int s = GEOARROW_TYPE_WKB; s <= (views ? GEOARROW_TYPE_WKT_VIEW : GEOARROW_TYPE_LARGE_WKT); s++) o.push_back(s);
  return o;
}

static void schemas() {
  static const std::vector<int> T = all_types(true);
  GeoArrowType type = (GeoArrowType)T[(size_t)choose((int)T.size())];
  int kind = choose(4);
  explore(fmt("schema %d of type %d", kind, type), [&](F& f) {
    OwnedSchema s, s2;
    GeoArrowError err;
    if (kind == 0) {
      STEP(GeoArrowSchemaInit(&s.s, type));
      return;
    }
    STEP(GeoArrowSchemaInitExtension(&s.s, type));
    GeoArrowMetadataView v;
    memset(&v, 0, sizeof v);
    v.edge_type = GEOARROW_EDGE_TYPE_SPHERICAL;
    v.crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
    v.crs = sv("a \"quoted\" CRS");
    if (kind == 1) {
      TRY(GeoArrowSchemaSetMetadata(&s.s, &v));
      // the schema is as it was or has the new metadata
      GeoArrowSchemaView sv_;
      vf_alloc_reset();
      if (GeoArrowSchemaViewInit(&sv_, &s.s, &err) || (int)sv_.type != (int)type) fail("corrupt", f.name + ": the schema is broken");
      return;
    }
    STEP(GeoArrowSchemaInitExtension(&s2.s, GEOARROW_TYPE_WKB));
    STEP(GeoArrowSchemaSetMetadata(&s2.s, &v));
    STEP(GeoArrowSchemaSetMetadataFrom(&s.s, &s2.s));
    if (kind == 3) {
      OBuilder b;
      OArrReader r;
      OArrWriter w;
      if (type < 100005) STEP(GeoArrowBuilderInitFromSchema(&b.o, &s.s, &err));
      if (type % 1000 != 990) {
        if (type != GEOARROW_TYPE_WKB_VIEW && type != GEOARROW_TYPE_WKT_VIEW && type != GEOARROW_TYPE_LARGE_WKB && type != GEOARROW_TYPE_LARGE_WKT)
          STEP(GeoArrowArrayWriterInitFromSchema(&w.o, &s.s));
      }
      STEP(GeoArrowArrayReaderInitFromSchema(&r.o, &s.s, &err));
    }
  });
}

// Features of every kind
static std::vector<Feat> features(int gt, int dims, int n) {
  static Values vals;
  vals = Values();
  std::vector<Feat> fs;
  for (int i = 0; i < n; i++) {
    Feat f;
    f.null = i % 3 == 1;
    if (!f.null) {
      int g = gt == T_BOX ? T_POLYGON : gt;
      f.g = shape(g, dims, g == T_POINT ? 1 : 2 + i % 2, vals);
    }
    fs.push_back(f);
  }
  return fs;
}
// All in one value: a polygon big enough to reallocate
static Feat big(int dims) {
  static Values vals;
  vals = Values();
  Feat f;
  f.null = false;
  f.g = mk(T_LINESTRING, dims);
  for (int i = 0; i < 100; i++) f.g.coords.push_back(vals.c());
  return f;
}

// What was sent to a writer since its last batch
struct Sent {
  Feat f;
  bool ok;
  bool mark = false;  // a finish failed after this one: what was sent until then is kept or lost as a whole
};
// Every accepted feature is a row, in order; one that failed is anything or missing.
static bool rows_fit(const std::vector<Sent>& s, size_t i, const std::vector<Feat>& r, size_t j) {
  if (i == s.size()) return j == r.size();
  if (s[i].ok) return j < r.size() && feq(r[j], s[i].f) && rows_fit(s, i + 1, r, j + 1);
  return rows_fit(s, i + 1, r, j) || (j < r.size() && rows_fit(s, i + 1, r, j + 1));
}
// The finished array is valid and holds the accepted features. t: native type, or the WKB/WKT type
static void check_out(F& f, const std::vector<Sent>& sent, const ArrowArray* a, int type, const NType& t) {
  std::vector<Feat> got;
  std::vector<Sent> want;
  auto norm = [&](Feat x) {
    x = canon(x);
    if (!x.null && type < 100000) x.g = remap(x.g, t.dims);
    return x;
  };
  try {
    if (type < 100000) got = decode_native(t, a);
    else
      for (auto& c : decode_serialized(a)) {
        Feat x;
        x.null = c.null;
        if (!c.null) {
          Verdict v = type == GEOARROW_TYPE_WKB ? parse_wkb((const uint8_t*)c.s.data(), c.s.size(), x.g) : parse_wkt(c.s, x.g);
          // only a feature that failed may be incomplete
          if (v != V_OK) x.g = Geom();
        }
        got.push_back(x);
      }
  } catch (Invalid& e) {
    fail("invalid", f.name + ": invalid array: " + e.why);
  }
  for (auto& x : got) x = norm(x);
  for (auto& x : sent) want.push_back(Sent{norm(x.f), x.ok});
  bool fits = rows_fit(want, 0, got, 0);
  for (size_t i = 0; i < sent.size() && !fits; i++)
    if (sent[i].mark) fits = rows_fit(want, i + 1, got, 0);
  if (!fits) {
    std::string w;
    for (auto& x : want) w += (x.ok ? " " : " (failed) ") + str(x.f).substr(0, 200);
    fail("content", f.name + ": the rows are " + str(got).substr(0, 800) + " but what was accepted is" + w.substr(0, 800));
  }
}

// A visitor writes features; the object is finished and used once more.
static void emit_all(F& f, const std::vector<Feat>& fs, GeoArrowVisitor* v, std::vector<Sent>& sent, bool& stop, int chunk = 0) {
  stop = true;
  for (auto& x : fs) {
    EmitOpts eo;
    int rest = 0;
    eo.chunk = chunk;
    if (f.goon == 2) eo.pushy = &rest;
    int rc = emit_feat(x, v, eo);
    sent.push_back(Sent{x, rc == 0});
    if (!f.step("visit", rc) && !f.goon) return;
  }
  stop = false;
}
static void writers() {
  int kind = choose(5);  // WKB, WKT, array writer of WKB, WKT, WKB from nodes
  int input = choose(8);
  int batches = 1 + choose(2);
  std::string name = fmt("writer %d, input %d, %d batches", kind, input, batches);
  std::vector<Feat> fs = input == 7 ? std::vector<Feat>{big(4)} : features(input + 1, 1 + input % 4, 3);
  if (input < 7) {
    int gt = input + 1;
    if (gt == T_GC) {
      Values v;
      for (auto& x : fs) {
        x.g = mk(T_GC, 1);
        x.g.parts.push_back(shape(T_POLYGON, 1, 2, v));
        x.g.parts.push_back(shape(T_GC, 1, 2, v));
      }
    }
  }
  explore(
      name,
      [&](F& f) {
        OWkbWriter wb;
        OWktWriter wt;
        OArrWriter wa;
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        v.error = &err;
        if (kind == 0 || kind == 4) {
          STEP(GeoArrowWKBWriterInit(&wb.o));
          GeoArrowWKBWriterInitVisitor(&wb.o, &v);
        } else if (kind == 1) {
          STEP(GeoArrowWKTWriterInit(&wt.o));
          GeoArrowWKTWriterInitVisitor(&wt.o, &v);
        } else {
          STEP(GeoArrowArrayWriterInitFromType(&wa.o, kind == 2 ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT));
          TRY(GeoArrowArrayWriterInitVisitor(&wa.o, &v));
        }
        v.error = &err;
        std::vector<Sent> sent;
        for (int b = 0; b < batches; b++) {
          bool stop = false;
          if (kind < 4) emit_all(f, fs, &v, sent, stop, b ? 7 : 0);
          else
            for (auto& x : fs) {
              Nodes nd;
              if (!x.null) nd.add(x.g);
              int rc = x.null ? GeoArrowWKBWriterAppendNull(&wb.o) : GeoArrowWKBWriterAppend(&wb.o, nd.view());
              sent.push_back(Sent{x, rc == 0});
              TRY(rc);
            }
          if (stop) return;
          Owned a;
          int rc = kind == 0 || kind == 4 ? GeoArrowWKBWriterFinish(&wb.o, &a.a, &err)
                   : kind == 1            ? GeoArrowWKTWriterFinish(&wt.o, &a.a, &err)
                                          : GeoArrowArrayWriterFinish(&wa.o, &a.a, &err);
          if (!rc) check_out(f, sent, &a.a, kind == 1 || kind == 3 ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB, NType());
          if (!rc) sent.clear();
          else if (!sent.empty()) sent.back().mark = true;
          TRY(rc);
          if (a.a.release && !f.errors && a.a.length != (int64_t)fs.size()) fail("length", f.name + ": length");
        }
      },
      true);
}
// Native writers of all types from several inputs, by visitor and from nodes
static void native() {
  static const std::vector<int> T = all_types(false);
  int type = T[(size_t)choose((int)T.size())];
  int gt = GeoArrowGeometryTypeFromType((GeoArrowType)type), dims = GeoArrowDimensionsFromType((GeoArrowType)type);
  vf::assume(type < 100000 && gt != T_BOX);
  int how = choose(3);  // visitor, nodes, array writer visitor
  int input = choose(3);  // same type, other dimensions, big
  auto fs = features(gt, input == 1 ? 1 + dims % 4 : dims, 3);
  if (input == 2) {
    Feat b = big(dims);
    Geom g = b.g;
    switch (gt) {
      case T_POINT: {
        b.g = mk(T_POINT, dims);
        b.g.coords = {g.coords[0]};
        break;
      }
      case T_LINESTRING: break;
      case T_POLYGON:
        b.g = mk(T_POLYGON, dims);
        b.g.rings = {g.coords, g.coords};
        break;
      case T_MULTIPOINT:
        b.g = mk(T_MULTIPOINT, dims);
        for (auto& c : g.coords) {
          Geom p = mk(T_POINT, dims);
          p.coords = {c};
          b.g.parts.push_back(p);
        }
        break;
      case T_MULTILINESTRING:
        b.g = mk(gt, dims);
        b.g.parts = {g, g};
        break;
      default: {
        Geom p = mk(T_POLYGON, dims);
        p.rings = {g.coords};
        b.g = mk(gt, dims);
        b.g.parts = {p, p};
      }
    }
    fs = {b, b};
  }
  int batches = 1 + choose(2);
  explore(
      fmt("native type %d how %d input %d batches %d", type, how, input, batches),
      [&](F& f) {
        ONative w;
        OArrWriter wa;
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        v.error = &err;
        if (how < 2) STEP(GeoArrowNativeWriterInit(&w.o, (GeoArrowType)type));
        else STEP(GeoArrowArrayWriterInitFromType(&wa.o, (GeoArrowType)type));
        if (how == 0) STEP(GeoArrowNativeWriterInitVisitor(&w.o, &v));
        if (how == 2) STEP(GeoArrowArrayWriterInitVisitor(&wa.o, &v));
        v.error = &err;
        std::vector<Sent> sent;
        NType nt{gt, dims, GeoArrowCoordTypeFromType((GeoArrowType)type) == GEOARROW_COORD_TYPE_INTERLEAVED};
        for (int b = 0; b < batches; b++) {
          if (how % 2 == 0) {
            bool stop;
            emit_all(f, fs, &v, sent, stop, b ? 7 : 0);
            if (stop) return;
          } else {
            for (auto& x : fs) {
              Nodes nd;
              if (!x.null) nd.add(x.g);
              int rc = x.null ? GeoArrowNativeWriterAppendNull(&w.o) : GeoArrowNativeWriterAppend(&w.o, nd.view(), &err);
              sent.push_back(Sent{x, rc == 0});
              TRY(rc);
            }
          }
          Owned a;
          int rc = how < 2 ? GeoArrowNativeWriterFinish(&w.o, &a.a, &err) : GeoArrowArrayWriterFinish(&wa.o, &a.a, &err);
          if (!rc) check_out(f, sent, &a.a, type, nt), sent.clear();
          else if (!sent.empty()) sent.back().mark = true;
          TRY(rc);
          if (a.a.release && !f.errors && a.a.length != (int64_t)fs.size()) fail("length", f.name + ": length");
        }
      },
      true);
}

// Readers of all kinds with a visitor that builds a geometry object
static void build_input(int type, Owned& a) {
  if (type >= 100000) {
    std::vector<std::string> ss;
    std::vector<bool> ok;
    for (auto& x : features(T_POLYGON, 1, 3)) {
      std::string s;
      if (!x.null) {
        if (type == GEOARROW_TYPE_WKT || type == GEOARROW_TYPE_LARGE_WKT) s = wkt(x.g, WktOpts());
        else {
          Bytes b;
          wkb(x.g, b, WkbOpts());
          s.assign((char*)b.data(), b.size());
        }
      }
      ss.push_back(s);
      ok.push_back(!x.null);
    }
    build_serialized(ss, ok, {}, a, type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT);
    return;
  }
  NType t{GeoArrowGeometryTypeFromType((GeoArrowType)type), GeoArrowDimensionsFromType((GeoArrowType)type), GeoArrowCoordTypeFromType((GeoArrowType)type) == GEOARROW_COORD_TYPE_INTERLEAVED};
  build_native(t, features(t.geometry_type, t.dims, 3), {}, a);
}
static void readers() {
  static const std::vector<int> T = all_types(false);
  int type = T[(size_t)choose((int)T.size())];
  vf::assume(type % 1000 != 990);
  int twice = choose(2);
  explore(
      fmt("reader of type %d", type),
      [&](F& f) {
        OArrReader r;
        Owned a;
        build_input(type, a);
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        STEP(GeoArrowArrayReaderInitFromType(&r.o, (GeoArrowType)type));
        TRY(GeoArrowArrayReaderSetArray(&r.o, &a.a, &err));
        const GeoArrowArrayView* view = nullptr;
        if (type != GEOARROW_TYPE_LARGE_WKB && type != GEOARROW_TYPE_LARGE_WKT) STEP(GeoArrowArrayReaderArrayView(&r.o, &view));
        OGeom g;
        STEP(GeoArrowGeometryInit(&g.o));
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        v.error = &err;
        GeoArrowGeometryInitVisitor(&g.o, &v);
        v.error = &err;
        for (int i = 0; i <= twice; i++) TRY(GeoArrowArrayReaderVisit(&r.o, 0, 3, &v));
      },
      true);
}
static void scalar_readers() {
  int kind = choose(2), input = choose(8);
  Feat x = input == 7 ? big(2) : features(input + 1, 1 + input % 4, 1)[0];
  if (input == 6) {
    Values v;
    x.g = mk(T_GC, 1);
    for (int i = 0; i < 12; i++) x.g.parts.push_back(shape(1 + i % 6, 1, 1, v));
  }
  explore(
      fmt("scalar reader %d, input %d", kind, input),
      [&](F& f) {
        OWkbReader rb;
        OWktReader rt;
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        OGeom g, g2;
        STEP(GeoArrowGeometryInit(&g.o));
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        v.error = &err;
        GeoArrowGeometryInitVisitor(&g.o, &v);
        v.error = &err;
        Bytes b;
        wkb(x.g, b, WkbOpts());
        std::string s = wkt(x.g, WktOpts());
        Exact eb(b.data(), b.size()), es(s.data(), s.size());
        if (kind == 0) {
          STEP(GeoArrowWKBReaderInit(&rb.o));
          GeoArrowGeometryView view;
          STEP(GeoArrowWKBReaderRead(&rb.o, bv(eb), &view, &err));
          TRY(GeoArrowGeometryViewVisit(view, &v));
          TRY(GeoArrowWKBReaderVisit(&rb.o, bv(eb), &v));
          STEP(GeoArrowGeometryInit(&g2.o));
          TRY(GeoArrowGeometryShallowCopy(view, &g2.o));
          TRY(GeoArrowGeometryDeepCopy(view, &g2.o));
          TRY(GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&g2.o), &g.o));
        } else {
          STEP(GeoArrowWKTReaderInit(&rt.o));
          TRY(GeoArrowWKTReaderVisit(&rt.o, sv(es), &v));
          TRY(GeoArrowWKTReaderVisit(&rt.o, sv(es), &v));
        }
        if (!f.errors && f.faulty) return;
        // what is there can be visited
        GeoArrowVisitor n;
        memset(&n, 0, sizeof n);
        GeoArrowVisitorInitVoid(&n);
        n.error = &err;
        (void)GeoArrowGeometryVisit(&g.o, &n);
        (void)GeoArrowGeometryVisit(&g2.o, &n);
      },
      true);
}
// a geometry object built from events, whatever fails
static void geometry_events() {
  int input = choose(8), dims = 1 + choose(4);
  int chunk = choose(3);
  Feat x = input == 7 ? big(dims) : features(input + 1, dims, 1)[0];
  if (input == 6) {
    Values v;
    x.g = mk(T_GC, dims);
    for (int i = 0; i < 12; i++) x.g.parts.push_back(shape(1 + i % 6, dims, 2, v));
  }
  explore(
      fmt("geometry from events, input %d dims %d chunk %d", input, dims, chunk),
      [&](F& f) {
        OGeom g;
        STEP(GeoArrowGeometryInit(&g.o));
        GeoArrowVisitor v;
        GeoArrowError err;
        memset(&v, 0, sizeof v);
        memset(&err, 0, sizeof err);
        v.error = &err;
        GeoArrowGeometryInitVisitor(&g.o, &v);
        for (int i = 0; i < 3; i++) {
          EmitOpts eo;
          int rest = 0;
          eo.chunk = chunk * 3;
          if (f.goon == 2) eo.pushy = &rest;
          int rc = emit_feat(x, &v, eo);
          Rec rec;
          rec.strict = rec.check = rc == 0;
          int vrc = GeoArrowGeometryVisit(&g.o, &rec.v);
          vf::raise_deferred();
          if (!rc && (vrc || rec.feats.size() != 1 || !feq(rec.feats[0], x))) fail("content", f.name + ": built " + str(rec.feats) + " instead of " + str(x));
          TRY(rc);
        }
      },
      true);
}

static void geometry_nodes() {
  int n = 1 + choose(12);
  int start = choose(3) * 5;
  explore(
      fmt("nodes %d from %d", n, start),
      [&](F& f) {
        OGeom g;
        STEP(GeoArrowGeometryInit(&g.o));
        if (start) TRY(GeoArrowGeometryResizeNodes(&g.o, start));
        for (int i = 0; i < n; i++) {
          GeoArrowGeometryNode* x = nullptr;
          TRY(GeoArrowGeometryAppendNodeInline(&g.o, &x));
          if (x && !f.errors) x->geometry_type = 1;
        }
        TRY(GeoArrowGeometryResizeNodesInline(&g.o, 0));
        TRY(GeoArrowGeometryResizeNodesInline(&g.o, 60));
        TRY(GeoArrowGeometryResizeNodes(&g.o, 3));
      },
      true);
}

static void builders() {
  static const std::vector<int> T = all_types(false);
  int type = T[(size_t)choose((int)T.size())];
  int how = choose(3);
  explore(
      fmt("builder of type %d how %d", type, how),
      [&](F& f) {
        OBuilder b;
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        STEP(GeoArrowBuilderInitFromType(&b.o, (GeoArrowType)type));
        int nb = (int)b.o.view.n_buffers;
        bool native = type < 100000;
        for (int batch = 0; batch < 2; batch++) {
          std::vector<int> order;
          // an empty array needs no content but one offset
          struct Own {
            int freed = 0;
            bool given = false;
          };
          static std::vector<Own> own;
          own.assign((size_t)nb, Own());
          bool failed_own = false;
          for (int i = 1; i < nb; i++) {
            std::vector<double> z(40, 0);
            bool off = !native ? i == 1 : i <= b.o.view.n_offsets;
            size_t size = off ? (type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT ? 16 : 8) : 0;
            Exact e(z.data(), size);
            if (how == 0) {
              TRY(GeoArrowBuilderReserveBuffer(&b.o, i, (int64_t)size + 8));
              TRY(GeoArrowBuilderAppendBuffer(&b.o, i, bv(e)));
            } else if (how == 1) {
              GeoArrowBufferView v;
              v.data = (uint8_t*)malloc(size + 1);
              memset((void*)v.data, 0, size + 1);
              v.size_bytes = (int64_t)size;
              Own* o = &own[(size_t)i];
              int rc = GeoArrowBuilderSetOwnedBuffer(
                  &b.o, i, v,
                  [](uint8_t* p, int64_t, void* pd) {
                    ((Own*)pd)->freed++;
                    ::free(p);
                  },
                  o);
              if (rc) {
                if (o->freed) fail("owned", f.name + ": the buffer was freed although it was not taken");
                ::free((void*)v.data);
                failed_own = true;
              } else {
                o->given = true;
              }
              TRY(rc);
            } else {
              if (off) TRY(GeoArrowBuilderAppendBuffer(&b.o, i, bv(e)));
            }
          }
          if (how == 2 && native && type % 1000 != 990) {
            std::vector<double> z(400, 1);
            GeoArrowCoordView cv;
            memset(&cv, 0, sizeof cv);
            cv.n_coords = 100;
            cv.n_values = 4;
            cv.coords_stride = 4;
            for (int j = 0; j < 4; j++) cv.values[j] = z.data() + j;
            TRY(GeoArrowBuilderCoordsReserve(&b.o, 3));
            TRY(GeoArrowBuilderCoordsAppend(&b.o, &cv, GEOARROW_DIMENSIONS_XYZM, 0, 100));
            TRY(GeoArrowBuilderCoordsAppend(&b.o, &cv, GEOARROW_DIMENSIONS_XYZM, 0, 100));
          }
          Owned a;
          TRY(GeoArrowBuilderFinish(&b.o, &a.a, &err));
          a.reset();
          (void)failed_own;
        }
      },
      true);
}

static std::string options(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string s;
  auto i32 = [&](int32_t x) { s.append((char*)&x, 4); };
  i32((int32_t)kv.size());
  for (auto& p : kv) i32((int32_t)p.first.size()), s += p.first, i32((int32_t)p.second.size()), s += p.second;
  return s;
}
static void kernels() {
  static const char* N[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg", "as_geoarrow", "as_geoarrow", "as_geoarrow", "as_geoarrow"};
  static const int out_type[] = {0, 0, 0, 0, GEOARROW_TYPE_WKB, 0, 0, 0, GEOARROW_TYPE_WKT, 3, 10006, 13005};
  int k = choose(12);
  static const int in[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT, 3, 11003};
  int type = in[choose(6)];
  int batches = choose(3), again = k == 4 || k > 7 ? 0 : choose(2);
  bool agg = k == 1 || k == 2 || k == 5 || k == 7;
  explore(
      fmt("kernel %s (%d) on %d, %d batches%s", N[k], out_type[k], type, batches, again ? ", started twice" : ""),
      [&](F& f) {
        OKernel kk;
        OwnedSchema s;
        GeoArrowError err;
        memset(&err, 0, sizeof err);
        GeoArrowMetadataView mv;
        memset(&mv, 0, sizeof mv);
        mv.crs_type = GEOARROW_CRS_TYPE_SRID;
        mv.crs = sv("1");
        STEP(GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type));
        STEP(GeoArrowSchemaSetMetadata(&s.s, &mv));
        STEP(GeoArrowKernelInit(&kk.k, N[k], nullptr));
        std::string o = options({{"type", std::to_string(out_type[k])}});
        for (int i = 0; i <= again; i++) {
          OwnedSchema out;
          TRY(kk.k.start(&kk.k, &s.s, out_type[k] ? o.data() : nullptr, &out.s, &err));
        }
        if (f.errors && f.goon) return;
        for (int i = 0; i < batches; i++) {
          Owned a, out;
          build_input(type, a);
          TRY(kk.k.push_batch(&kk.k, &a.a, agg ? nullptr : &out.a, &err));
        }
        Owned fin;
        TRY(kk.k.finish(&kk.k, agg ? &fin.a : nullptr, &err));
      },
      true);
}

static void udf() {
  int n = choose(3);
  explore(fmt("scalar function %d", n), [&](F& f) {
    GeoArrowScalarUdfFactory fac;
    memset(&fac, 0, sizeof fac);
    GeoArrowError err;
    STEP(GeoArrowScalarUdfFactoryInit(&fac, "void", "", &err));
    GeoArrowScalarUdf u;
    memset(&u, 0, sizeof u);
    fac.new_scalar_udf_impl(&fac, &u);
    struct R {
      GeoArrowScalarUdf& u;
      GeoArrowScalarUdfFactory& f;
      ~R() {
        if (u.release) u.release(&u);
        f.release(&f);
      }
    } r{u, fac};
    OwnedSchema out;
    STEP(u.init(&u, nullptr, nullptr, 0, &out.s));
    for (int i = 0; i <= n; i++) {
      Owned a;
      STEP(u.execute(&u, nullptr, 0, 4, &a.a));
    }
  });
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"schemas", schemas, true, "58 types x making, annotating, copying and using schemas x every allocation"},
                    {"writers", writers, true, "WKB, WKT and array writers, by visitor and nodes x 8 inputs x 1 or 2 batches x every allocation"},
                    {"native", native, true, "48 native types x visitor, nodes, array writer x 3 inputs x 1 or 2 batches x every allocation"},
                    {"readers", readers, true, "52 types x reading into a geometry object x every allocation"},
                    {"scalar_readers", scalar_readers, true, "WKB and WKT readers x 8 inputs, copies x every allocation"},
                    {"geometry_events", geometry_events, true, "building 8 inputs in 4 dimensions from events in 3 chunkings, giving up or going on x every allocation"},
                    {"geometry_nodes", geometry_nodes, true, "resizing and appending nodes x every allocation"},
                    {"builders", builders, true, "56 types x by bytes, owned buffers, coordinates x every allocation"},
                    {"kernels", kernels, true, "12 kernels x 6 inputs x up to 2 batches x every allocation"},
                    {"udf", udf, true, "scalar function"}});
}
