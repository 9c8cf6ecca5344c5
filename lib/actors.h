// C16: the activities ("actors") that are interleaved.  Every actor owns its objects;
// what it observes is recorded as text in out.  yield() marks the points where another
// actor may run: between operations and inside every visitor callback.
#pragma once
#include "h.h"

namespace actors {
using namespace h;

enum Kind {
  WKB_VISIT, WKB_READ, WKT_VISIT, WKB_WRITE, WKT_WRITE, NAT_INTERLEAVED, NAT_SEPARATED, APPEND, GEOM, COPY,
  READ_NATIVE, READ_OTHER, READ_BOX, READ_WKB, READ_WKT, K_BOX, K_BOX_AGG, K_TYPES, K_WKT, K_CAST, METADATA, SCHEMA, BUILDER, NUMBERS,
  UDF, ARRAY_WRITER, ERRORS, NKIND
};
static const char* const kKind[] = {"WKB visit", "WKB read", "WKT visit", "WKB writer", "WKT writer", "interleaved writer", "separated writer",
                                    "append", "geometry builder", "geometry copies", "native array reader", "point and multipolygon readers", "box array reader", "WKB array reader",
                                    "WKT array reader", "box", "box_agg", "unique_geometry_types_agg", "format_wkt", "as_geoarrow", "metadata",
                                    "schema", "array builder", "numbers", "scalar function", "array writer", "errors"};

// Input that all actors read, and the factory that all actors use.
struct Shared {
  Owned native, wkb, wkt, box, point, mpoly;
  NType nt{T_MULTILINESTRING, 2, false};
  GeoArrowScalarUdfFactory factory;
  std::vector<Feat> rows;
  Shared() {
    Values v;
    for (int i = 0; i < 6; i++) {
      Feat f;
      f.null = i == 2;
      f.g = shape(T_MULTILINESTRING, 2, i % 3, v);
      rows.push_back(f);
    }
    NatOpts o;
    o.off[0] = 1;
    build_native(nt, rows, o, native);
    std::vector<std::string> b, t;
    std::vector<bool> ok;
    for (auto& f : rows) {
      Bytes w;
      wkb_of(f.g, w, true);
      b.push_back(std::string((char*)w.data(), w.size()));
      t.push_back(ref::wkt(f.g, WktOpts()));
      ok.push_back(!f.null);
    }
    build_serialized(b, ok, o, wkb);
    build_serialized(t, ok, o, wkt);
    std::vector<Feat> bs, ps, ms;
    for (int i = 0; i < 5; i++) {
      Feat f;
      f.null = i == 3;
      f.g = shape(T_POINT, 4, 1, v);
      ps.push_back(f);
      f.g = shape(T_MULTIPOLYGON, 3, 1, v);
      ms.push_back(f);
      f.g = mk(T_BOX, 1);
      C4 lo = v.c(), hi = v.c();
      lo.v[2] = hi.v[0], lo.v[3] = hi.v[1];
      f.g.coords.push_back(lo);
      f.g.coords.push_back(hi);
      bs.push_back(f);
    }
    build_native(NType{T_POINT, 4, true}, ps, o, point);
    build_native(NType{T_MULTIPOLYGON, 3, true}, ms, o, mpoly);
    build_native(NType{T_BOX, 1, false}, bs, o, box);
    memset(&factory, 0, sizeof factory);
    GeoArrowScalarUdfFactoryInit(&factory, "void", "", nullptr);
  }
  ~Shared() { factory.release(&factory); }
  Shared(const Shared&) = delete;
  static void wkb_of(const Geom& g, Bytes& b, bool swap) {
    WkbOpts o;
    o.little = [swap] { return !swap; };
    ref::wkb(g, b, o);
  }
};

static std::string options(const std::string& k, const std::string& v) {
  std::string s;
  auto i32 = [&](int32_t x) { s.append((char*)&x, 4); };
  i32(1);
  i32((int32_t)k.size());
  s += k;
  i32((int32_t)v.size());
  s += v;
  return s;
}

struct Actor {
  int kind, id;
  Shared* sh;
  std::function<void()> on_yield;
  std::vector<std::string> out;
  std::vector<Feat> feats;   // own data: type, size and values depend on the id
  Owned in;                  // own input array of the kernels
  std::string problem;

  Actor(int kind, int id, Shared* sh) : kind(kind), id(id), sh(sh) {
    Values v;
    v.next = 1000 * (id + 1) + 0.125;
    int dims = id == 0 ? 2 : id == 1 ? 4 : 3;
    auto put = [&](Geom g) {
      Feat f;
      f.null = false;
      f.g = g;
      feats.push_back(f);
    };
    Geom l = mk(T_LINESTRING, dims);
    for (int i = 0; i < 2 + id; i++) l.coords.push_back(v.c());
    put(l);
    Geom p = mk(T_POLYGON, dims);
    for (int i = 0; i < 1 + id; i++) p.rings.push_back({v.c(), v.c(), v.c()});
    Geom gc = mk(T_GC, dims);
    gc.parts = {p, shape(T_MULTIPOINT, dims, 1 + id, v)};
    put(gc);
    Feat n;
    n.null = true;
    n.g = mk(T_POINT, 1);
    feats.push_back(n);
    put(shape(T_POINT, dims, 1, v));
    if (kind >= K_BOX && kind <= K_CAST) {
      std::vector<std::string> ss;
      std::vector<bool> ok;
      for (auto& f : feats) {
        Bytes b;
        if (!f.null) Shared::wkb_of(f.g, b, id & 1);
        ss.push_back(std::string((char*)b.data(), b.size()));
        ok.push_back(!f.null);
      }
      build_serialized(ss, ok, NatOpts(), in);
    }
  }
  void yield() {
    if (on_yield) on_yield();
  }
  void say(const std::string& s) { out.push_back(s); }
  void rc(const char* what, int r) { out.push_back(std::string(what) + "=" + std::to_string(r)); }

  // passes events on, yielding in front of each
  struct Filter {
    GeoArrowVisitor v;
    GeoArrowVisitor* next;
    Actor* a;
    static Filter* self(GeoArrowVisitor* v) { return (Filter*)v->private_data; }
    Filter(Actor* a, GeoArrowVisitor* next) : next(next), a(a) {
#define VF_PASS(cb) \
  v.cb = [](GeoArrowVisitor* x) -> int { \
    Filter* f = self(x);                 \
    f->a->yield();                       \
    return f->next->cb(f->next);         \
  }
      VF_PASS(feat_start);
      VF_PASS(null_feat);
      VF_PASS(ring_start);
      VF_PASS(ring_end);
      VF_PASS(geom_end);
      VF_PASS(feat_end);
      v.geom_start = [](GeoArrowVisitor* x, GeoArrowGeometryType t, GeoArrowDimensions d) -> int {
        Filter* f = self(x);
        f->a->yield();
        return f->next->geom_start(f->next, t, d);
      };
      v.coords = [](GeoArrowVisitor* x, const GeoArrowCoordView* c) -> int {
        Filter* f = self(x);
        f->a->yield();
        return f->next->coords(f->next, c);
      };
      v.private_data = this;
      v.error = next->error;
    }
  };
  template <class F>
  void record(const char* what, F visit) {
    Rec r;
    r.check = false;
    r.strict = false;
    Filter f(this, &r.v);
    int c = visit(&f.v);
    rc(what, c);
    say(str(r.feats));
    if (c) say(r.err.message);
  }
  int emit(GeoArrowVisitor* v) {
    Filter f(this, v);
    for (auto& x : feats) {
      EmitOpts o;
      o.chunk = 2;
      o.interleaved = id & 1;
      int r = emit_feat(x, &f.v, o);
      if (r) return r;
    }
    return 0;
  }
  void serialized(const ArrowArray* a) {
    for (auto& b : decode_serialized(a)) say(b.null ? "null" : hex(Bytes(b.s.begin(), b.s.end())));
  }
  Exact wkb_bytes(int i, bool swap) {
    Bytes b;
    Shared::wkb_of(feats[i].g, b, swap);
    return Exact(b.data(), b.size());
  }

  void run() {
    try {
      go();
    } catch (vf::Violation& v) {
      problem = v.sig + ": " + v.msg;
    } catch (Invalid& e) {
      problem = "invalid array: " + e.why;
    }
  }
  void go() {
    GeoArrowError err;
    memset(&err, 0, sizeof err);
    switch (kind) {
      case WKB_VISIT: {
        WkbReader r;
        for (int i : {1, 0}) {
          Exact e = wkb_bytes(i, true);
          record("visit", [&](GeoArrowVisitor* v) { return GeoArrowWKBReaderVisit(&r.r, bv(e), v); });
        }
        break;
      }
      case WKB_READ: {
        WkbReader r;
        Exact e = wkb_bytes(1, !(id & 1));
        GeoArrowGeometryView g;
        yield();
        rc("read", GeoArrowWKBReaderRead(&r.r, bv(e), &g, &err));
        yield();
        record("view", [&](GeoArrowVisitor* v) { return GeoArrowGeometryViewVisit(g, v); });
        Exact e2(e.p, e.n - 3 - id);
        yield();
        rc("read", GeoArrowWKBReaderRead(&r.r, bv(e2), &g, &err));
        yield();
        say(err.message);
        break;
      }
      case WKT_VISIT: {
        WktReader r;
        for (int i : {1, 3}) {
          std::string s = wkt(feats[i].g, WktOpts());
          Exact e(s.data(), s.size());
          record("visit", [&](GeoArrowVisitor* v) { return GeoArrowWKTReaderVisit(&r.r, sv(e), v); });
        }
        break;
      }
      case WKB_WRITE: {
        WkbWriter w;
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        GeoArrowWKBWriterInitVisitor(&w.w, &v);
        v.error = &err;
        rc("emit", emit(&v));
        yield();
        Owned o;
        rc("finish", GeoArrowWKBWriterFinish(&w.w, &o.a, &err));
        yield();
        serialized(&o.a);
        break;
      }
      case WKT_WRITE: {
        WktWriter w;
        w.w.precision = 5 + id;
        w.w.use_flat_multipoint = id & 1;
        yield();
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        GeoArrowWKTWriterInitVisitor(&w.w, &v);
        v.error = &err;
        rc("emit", emit(&v));
        yield();
        Owned o;
        rc("finish", GeoArrowWKTWriterFinish(&w.w, &o.a, &err));
        yield();
        for (auto& b : decode_serialized(&o.a)) say(b.null ? "null" : b.s);
        break;
      }
      case NAT_INTERLEAVED:
      case NAT_SEPARATED:
      case ARRAY_WRITER: {
        NType t{id == 1 ? T_MULTIPOLYGON : T_POLYGON, feats[0].g.dims, kind == NAT_INTERLEAVED};
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        Feat f;
        f.null = false;
        f.g = feats[1].g.parts[0];
        std::vector<Feat> fs{f, feats[2], f};
        auto send = [&] {
          Filter fl(this, &v);
          for (auto& x : fs) rc("feat", emit_feat(x, &fl.v));
        };
        Owned o;
        if (kind == ARRAY_WRITER) {
          OwnedSchema s;
          rc("schema", GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)t.type()));
          yield();
          GeoArrowArrayWriter w;
          rc("init", GeoArrowArrayWriterInitFromSchema(&w, &s.s));
          yield();
          rc("visitor", GeoArrowArrayWriterInitVisitor(&w, &v));
          v.error = &err;
          send();
          yield();
          rc("finish", GeoArrowArrayWriterFinish(&w, &o.a, &err));
          GeoArrowArrayWriterReset(&w);
        } else {
          NatWriter w(t.type());
          yield();
          rc("visitor", GeoArrowNativeWriterInitVisitor(&w.w, &v));
          v.error = &err;
          send();
          yield();
          rc("finish", GeoArrowNativeWriterFinish(&w.w, &o.a, &err));
        }
        yield();
        say(str(decode_native(t, &o.a)));
        break;
      }
      case APPEND: {
        NType t{T_POLYGON, feats[0].g.dims, (bool)(id & 1)};
        NatWriter w(t.type());
        WkbWriter b;
        for (int i = 0; i < 2; i++) {
          Nodes n;
          n.add(feats[1].g.parts[0], (Nodes::Mode)(i + id), id & 1);
          yield();
          rc("append", GeoArrowNativeWriterAppend(&w.w, n.view(), &err));
          yield();
          rc("append", GeoArrowWKBWriterAppend(&b.w, n.view()));
        }
        yield();
        rc("null", GeoArrowNativeWriterAppendNull(&w.w));
        Owned o, o2;
        yield();
        rc("finish", GeoArrowNativeWriterFinish(&w.w, &o.a, &err));
        rc("finish", GeoArrowWKBWriterFinish(&b.w, &o2.a, &err));
        yield();
        say(str(decode_native(t, &o.a)));
        serialized(&o2.a);
        break;
      }
      case GEOM: {
        Geometry g;
        GeoArrowVisitor v;
        memset(&v, 0, sizeof v);
        GeoArrowGeometryInitVisitor(&g.g, &v);
        v.error = &err;
        for (int i : {1, 0}) {
          Filter f(this, &v);
          rc("emit", emit_feat(feats[i], &f.v));
          yield();
          record("visit", [&](GeoArrowVisitor* x) { return GeoArrowGeometryVisit(&g.g, x); });
        }
        break;
      }
      case COPY: {
        Nodes n;
        n.add(feats[1].g, Nodes::PADDED, true);
        Geometry a, b;
        yield();
        rc("deep", GeoArrowGeometryDeepCopy(n.view(), &a.g));
        yield();
        rc("shallow", GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&a.g), &b.g));
        yield();
        record("visit", [&](GeoArrowVisitor* v) { return GeoArrowGeometryVisit(&b.g, v); });
        record("visit", [&](GeoArrowVisitor* v) { return GeoArrowGeometryViewVisit(n.view(), v); });
        break;
      }
      case READ_OTHER:
      case READ_BOX: {
        for (int i = 0; i < (kind == READ_OTHER ? 2 : 1); i++) {
          int type = kind == READ_BOX ? T_BOX : i ? NType{T_MULTIPOLYGON, 3, true}.type() : NType{T_POINT, 4, true}.type();
          GeoArrowArrayView a;
          rc("init", GeoArrowArrayViewInitFromType(&a, (GeoArrowType)type));
          yield();
          rc("set", GeoArrowArrayViewSetArray(&a, kind == READ_BOX ? &sh->box.a : i ? &sh->mpoly.a : &sh->point.a, &err));
          yield();
          record("visit", [&](GeoArrowVisitor* v) { return GeoArrowArrayViewVisitNative(&a, id, 2, v); });
        }
        break;
      }
      case READ_NATIVE:
      case READ_WKB:
      case READ_WKT: {
        int type = kind == READ_NATIVE ? sh->nt.type() : kind == READ_WKB ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT;
        const Owned& x = kind == READ_NATIVE ? sh->native : kind == READ_WKB ? sh->wkb : sh->wkt;
        ArrReader r(type);
        rc("init", r.rc);
        yield();
        rc("set", GeoArrowArrayReaderSetArray(&r.r, &x.a, &err));
        yield();
        record("visit", [&](GeoArrowVisitor* v) { return GeoArrowArrayReaderVisit(&r.r, id, 3, v); });
        break;
      }
      case K_BOX:
      case K_BOX_AGG:
      case K_TYPES:
      case K_WKT:
      case K_CAST: {
        static const char* const names[] = {"box", "box_agg", "unique_geometry_types_agg", "format_wkt", "as_geoarrow"};
        bool agg = kind == K_BOX_AGG || kind == K_TYPES;
        GeoArrowKernel k;
        memset(&k, 0, sizeof k);
        rc("init", GeoArrowKernelInit(&k, names[kind - K_BOX], nullptr));
        yield();
        OwnedSchema is, os;
        rc("schema", GeoArrowSchemaInitExtension(&is.s, GEOARROW_TYPE_WKB));
        std::string o = kind == K_CAST ? options("type", std::to_string((int)(id & 1 ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT)))
                        : kind == K_WKT ? options("precision", std::to_string(4 + id)) : std::string(4, '\0');
        Exact eo(o.data(), o.size());
        yield();
        rc("start", k.start(&k, &is.s, (const char*)exact_ptr(eo), &os.s, &err));
        for (int i = 0; i < 2; i++) {
          Owned out;
          yield();
          rc("push", k.push_batch(&k, &in.a, agg ? nullptr : &out.a, &err));
          yield();
          if (kind == K_BOX) for (auto& b : decode_box(1, &out.a)) say(fmt("%d %g %g %g %g", b.null, b.v[0], b.v[1], b.v[4], b.v[5]));
          if (kind == K_WKT || kind == K_CAST) serialized(&out.a);
        }
        Owned out;
        yield();
        rc("finish", k.finish(&k, agg ? &out.a : nullptr, &err));
        yield();
        if (kind == K_BOX_AGG) for (auto& b : decode_box(1, &out.a)) say(fmt("%d %g %g %g %g", b.null, b.v[0], b.v[1], b.v[4], b.v[5]));
        if (kind == K_TYPES) for (int64_t i = 0; i < out.a.length; i++) say(std::to_string(((const int32_t*)out.a.buffers[1])[out.a.offset + i]));
        yield();
        k.release(&k);
        break;
      }
      case METADATA: {
        std::string crs = id & 1 ? "\"EPSG:\\\"4326\\\"\"" : "{\"a\": \"b\\u0041}\", \"n\": 12}";
        std::string s = std::string("{\"edges\": \"") + (id & 1 ? "spherical" : "vincenty") + "\", \"crs\": " + crs + "}";
        Exact e(s.data(), s.size());
        GeoArrowMetadataView m;
        yield();
        rc("init", GeoArrowMetadataViewInit(&m, sv(e), &err));
        yield();
        say(fmt("%d %d ", m.edge_type, m.crs_type) + std::string(m.crs.data, m.crs.size_bytes));
        char buf[200];
        int64_t n = GeoArrowUnescapeCrs(m.crs, buf, sizeof buf);
        yield();
        say(std::string(buf, n));
        n = GeoArrowMetadataSerialize(&m, buf, sizeof buf);
        yield();
        say(std::string(buf, n));
        OwnedSchema sc, s2;
        rc("schema", GeoArrowSchemaInitExtension(&sc.s, id & 1 ? GEOARROW_TYPE_POINT : GEOARROW_TYPE_WKB));
        rc("schema", GeoArrowSchemaInitExtension(&s2.s, GEOARROW_TYPE_WKT));
        yield();
        rc("set", GeoArrowSchemaSetMetadata(&sc.s, &m));
        yield();
        rc("setfrom", GeoArrowSchemaSetMetadataFrom(&s2.s, &sc.s));
        yield();
        GeoArrowSchemaView v;
        rc("view", GeoArrowSchemaViewInit(&v, &s2.s, &err));
        yield();
        say(std::string(v.extension_metadata.data, v.extension_metadata.size_bytes));
        GeoArrowMetadataSetLonLat(&m);
        yield();
        say(std::string(m.crs.data, m.crs.size_bytes));
        break;
      }
      case SCHEMA: {
        for (int i = 0; i < 3; i++) {
          int t = i == 2 ? type_of(T_BOX, 1 + 3 * (id & 1), false) : type_of(1 + (i + id) % 6, 1 + (2 * i + id) % 4, (i + id) & 1);
          OwnedSchema s;
          yield();
          rc("init", i ? GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)t) : GeoArrowSchemaInit(&s.s, (GeoArrowType)t));
          yield();
          GeoArrowSchemaView v;
          memset(&v, 0, sizeof v);
          rc("view", i ? GeoArrowSchemaViewInit(&v, &s.s, &err)
                       : GeoArrowSchemaViewInitFromStorage(&v, &s.s, sv(GeoArrowExtensionNameFromType((GeoArrowType)t)), &err));
          yield();
          say(fmt("%d %d %d %d ", v.type, v.geometry_type, v.dimensions, v.coord_type) + std::string(v.extension_name.data, v.extension_name.size_bytes));
          rc("typed", GeoArrowSchemaViewInitFromType(&v, (GeoArrowType)t));
          say(fmt("%d", v.type));
        }
        break;
      }
      case BUILDER: {
        NType t{T_LINESTRING, feats[0].g.dims, false};
        GeoArrowBuilder b;
        rc("init", GeoArrowBuilderInitFromType(&b, (GeoArrowType)t.type()));
        auto& c = feats[0].g.coords;
        std::vector<int32_t> off{0};
        for (int i = 0; i < 2; i++) {
          std::vector<double> tmp;
          GeoArrowCoordView cv;
          fill_view(cv, tmp, c, 0, c.size(), kND[t.dims], i);
          yield();
          rc("coords", GeoArrowBuilderCoordsAppend(&b, &cv, (GeoArrowDimensions)t.dims, 0, (int64_t)c.size()));
          off.push_back(off.back() + (int)c.size());
        }
        yield();
        rc("offsets", GeoArrowBuilderOffsetAppend(&b, 0, off.data(), (int64_t)off.size()));
        Owned o;
        yield();
        rc("finish", GeoArrowBuilderFinish(&b, &o.a, &err));
        yield();
        GeoArrowBuilderReset(&b);
        say(str(decode_native(t, &o.a)));
        break;
      }
      case NUMBERS: {
        for (int i = 0; i < 4; i++) {
          double d = (id + 1) * 1234.56789 * (i & 1 ? 1e-7 : 1e9) + i;
          char b[64];
          memset(b, 0, sizeof b);
          yield();
          int64_t n = GeoArrowPrintDouble(d, (uint32_t)(3 + 4 * i), b);
          yield();
          say(std::string(b, n));
          double back = 0;
          rc("parse", GeoArrowFromChars(b, b + n, &back));
          yield();
          say(fmt("%a", back));
        }
        break;
      }
      case UDF: {
        for (int i = 0; i < 2; i++) {
          GeoArrowScalarUdf u;
          memset(&u, 0, sizeof u);
          sh->factory.new_scalar_udf_impl(&sh->factory, &u);
          yield();
          OwnedSchema s, os;
          rc("schema", GeoArrowSchemaInit(&s.s, GEOARROW_TYPE_POINT));
          const ArrowSchema* types[] = {&s.s};
          rc("init", u.init(&u, types, nullptr, 1, &os.s));
          yield();
          say(os.s.format ? os.s.format : "no format");
          Owned o;
          ArrowArray* args[] = {(ArrowArray*)&sh->native.a};
          rc("execute", u.execute(&u, args, 1, 3 + id + i, &o.a));
          yield();
          say(fmt("%ld %ld", (long)o.a.length, (long)o.a.null_count));
          const char* e = u.get_last_error(&u);
          say(e ? e : "none");
          yield();
          u.release(&u);
        }
        break;
      }
      case ERRORS: {
        WktReader r;
        std::string s = id & 1 ? "LINESTRING (0 1, 2 x)" : "POINT (1 2 3) 4";
        Exact e(s.data(), s.size());
        record("visit", [&](GeoArrowVisitor* v) { return GeoArrowWKTReaderVisit(&r.r, sv(e), v); });
        GeoArrowSchemaView sv_;
        OwnedSchema os;
        rc("schema", GeoArrowSchemaInit(&os.s, id & 1 ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT));
        yield();
        rc("view", GeoArrowSchemaViewInitFromStorage(&sv_, &os.s, sv(id & 1 ? "geoarrow.point" : "geoarrow.nothing"), &err));
        yield();
        say(err.message);
        GeoArrowMetadataView m;
        std::string bad = id & 1 ? "{\"crs\": }" : "[1";
        Exact eb(bad.data(), bad.size());
        rc("metadata", GeoArrowMetadataViewInit(&m, sv(eb), &err));
        yield();
        say(err.message);
        ArrReader ar(sh->nt.type());
        rc("set", GeoArrowArrayReaderSetArray(&ar.r, &sh->wkb.a, &err));
        yield();
        say(err.message);
        GeoArrowScalarUdfFactory f;
        rc("factory", GeoArrowScalarUdfFactoryInit(&f, id & 1 ? "one" : "two", "", &err));
        yield();
        say(err.message);
        break;
      }
    }
  }
};

}  // namespace actors
