// C15: the C++ type, reader, writer and builder classes.
#include "h.h"

#include "geoarrow/geoarrow.hpp"
using namespace h;
using geoarrow::ArrayBuilder;
using geoarrow::ArrayReader;
using geoarrow::ArrayWriter;
using geoarrow::GeometryDataType;

// ------------------------------------------------------------------ data types

struct MType {  // what a GeometryDataType is
  int id = 0, gt = 0, dims = 0, ct = 0;
  int edge = 0, crs_type = 0;
  std::string crs;
};
static int id_of(int gt, int dims, int ct) {
  if (dims < 1 || dims > 4 || ct < 1 || ct > 2) return 0;
  if (gt == T_BOX && ct == GEOARROW_COORD_TYPE_SEPARATE) return T_BOX + 1000 * (dims - 1);
  return gt >= 1 && gt <= 6 ? type_of(gt, dims, ct == GEOARROW_COORD_TYPE_INTERLEAVED) : 0;
}
static MType mtype(int id) {
  MType m;
  m.id = id;
  m.crs_type = GEOARROW_CRS_TYPE_NONE;
  m.edge = GEOARROW_EDGE_TYPE_PLANAR;
  if (id < 100000) {
    m.gt = id % 1000;
    m.dims = id / 1000 % 10 + 1;
    m.ct = id / 10000 ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  }
  return m;
}
static std::vector<int> all_ids() {
  std::vector<int> o;
  for (int ct = 1; ct <= 2; ct++)
    for (int d = 1; d <= 4; d++)
      for (int g : {1, 2, 3, 4, 5, 6, (int)T_BOX})
        if (id_of(g, d, ct)) o.push_back(id_of(g, d, ct));
  for (int i : {GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT_VIEW}) o.push_back(i);
  return o;
}
static std::string ext_name(const MType& m) {
  switch (m.id) {
    case GEOARROW_TYPE_WKB:
    case GEOARROW_TYPE_LARGE_WKB:
    case GEOARROW_TYPE_WKB_VIEW: return "geoarrow.wkb";
    case GEOARROW_TYPE_WKT:
    case GEOARROW_TYPE_LARGE_WKT:
    case GEOARROW_TYPE_WKT_VIEW: return "geoarrow.wkt";
  }
  if (m.gt == T_BOX) return "geoarrow.box";
  static const char* n[] = {"", "point", "linestring", "polygon", "multipoint", "multilinestring", "multipolygon"};
  return std::string("geoarrow.") + n[m.gt];
}
static const char* const kEdges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static std::string to_string(const MType& m, size_t max) {
  if (!m.id) return "<Uninitialized GeometryDataType>";
  std::string s;
  if (m.id == GEOARROW_TYPE_LARGE_WKB || m.id == GEOARROW_TYPE_LARGE_WKT) s += "large ";
  if (m.id == GEOARROW_TYPE_WKB_VIEW || m.id == GEOARROW_TYPE_WKT_VIEW) s += "view ";
  if (m.edge != GEOARROW_EDGE_TYPE_PLANAR) s += std::string(kEdges[m.edge - GEOARROW_EDGE_TYPE_PLANAR]) + " ";
  if (m.ct == GEOARROW_COORD_TYPE_INTERLEAVED) s += "interleaved ";
  s += ext_name(m);
  static const char* d[] = {"", "", "_z", "_m", "_zm"};
  s += d[m.dims];
  std::string c;
  if (m.crs_type == GEOARROW_CRS_TYPE_UNKNOWN) c = m.crs;
  else if (m.crs_type != GEOARROW_CRS_TYPE_NONE) {
    static const char* n[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
    c = std::string(n[m.crs_type - GEOARROW_CRS_TYPE_NONE]) + ":" + m.crs;
  }
  if (!c.empty()) c = "<" + c + ">";
  if (c.size() >= max) c = c.substr(0, max - 4) + "...>";
  return s + c;
}
static void expect_type(const GeometryDataType& t, const MType& m, const char* what) {
  op();
  if ((int)t.id() != m.id) fail("type", fmt("%s: id %d instead of %d", what, (int)t.id(), m.id));
  if ((int)t.geometry_type() != m.gt || (int)t.dimensions() != m.dims || (int)t.coord_type() != m.ct)
    fail("type", fmt("%s: geometry type %d dimensions %d coord type %d of type %d", what, (int)t.geometry_type(), (int)t.dimensions(), (int)t.coord_type(), m.id));
  if (m.id && t.num_dimensions() != (m.dims ? kND[m.dims] : -1)) fail("type", "wrong number of dimensions");
  if ((int)t.edge_type() != m.edge || (int)t.crs_type() != m.crs_type || t.crs() != m.crs)
    fail("type", fmt("%s: edge type %d, CRS type %d, CRS '%s' instead of %d, %d, '%s'", what, (int)t.edge_type(), (int)t.crs_type(), t.crs().c_str(), m.edge, m.crs_type,
                     m.crs.c_str()));
  if (t.ToString() != to_string(m, 40) || t.ToString(10) != to_string(m, 10) || t.ToString(1000) != to_string(m, 1000))
    fail("type", std::string(what) + ": called " + t.ToString() + " instead of " + to_string(m, 40));
  if (m.id && t.extension_name() != ext_name(m)) fail("type", std::string(what) + ": extension name " + t.extension_name());
}

struct Crs {
  const char* s;
  int type;
};
static const Crs kCrs[] = {{"", GEOARROW_CRS_TYPE_NONE},
                           {"EPSG:4326", GEOARROW_CRS_TYPE_AUTHORITY_CODE},
                           {"a\"b\\c\n", GEOARROW_CRS_TYPE_UNKNOWN},
                           {"{\"type\":\"GeographicCRS\",\"name\":\"some name\",\"id\":{\"a\":[1,2]}}", GEOARROW_CRS_TYPE_PROJJSON},
                           {"GEOGCRS[\"WGS 84\"] that is rather long and so is cut", GEOARROW_CRS_TYPE_WKT2_2019},
                           {"4326", GEOARROW_CRS_TYPE_SRID}};

static std::string lonlat() {
  static std::string s = [] {
    GeoArrowMetadataView v;
    memset(&v, 0, sizeof v);
    GeoArrowMetadataSetLonLat(&v);
    return std::string(v.crs.data, (size_t)v.crs.size_bytes);
  }();
  return s;
}

// one operation on both; false: it is refused, as it has to be
static bool type_op(GeometryDataType& t, MType& m) {
  int what = choose(15);
  MType n = m;
  bool refuse = false;
  std::string name;
  auto set = [&](int gt, int dims, int ct) {
    int id = id_of(gt, dims, ct);
    if (!id) refuse = true;
    n = mtype(id);
    n.edge = m.edge, n.crs_type = m.crs_type, n.crs = m.crs;
  };
  auto apply = [&](std::function<GeometryDataType()> f) {
    bool threw = false;
    try {
      GeometryDataType r = f();
      t = r;
    } catch (geoarrow::Exception& e) {
      threw = true;
      if (e.message.empty()) fail("exception", "an exception without a message");
    }
    if (threw != refuse) fail("refused", name + fmt(" of type %d: %s", m.id, threw ? "refused" : "accepted"));
  };
  op();
  switch (what) {
    case 0: {
      static const int g[] = {0, 1, 2, 3, 4, 5, 6, 7, T_BOX};
      int k = g[choose(9)];
      name = "WithGeometryType";
      set(k, m.dims, m.ct);
      apply([&] { return t.WithGeometryType((GeoArrowGeometryType)k); });
      break;
    }
    case 1: {
      int k = choose(5);
      name = "WithDimensions";
      set(m.gt, k, m.ct);
      apply([&] {
        switch (k) {
          case 1: return t.XY();
          case 2: return t.XYZ();
          case 3: return t.XYM();
          case 4: return t.XYZM();
        }
        return t.WithDimensions((GeoArrowDimensions)k);
      });
      break;
    }
    case 2: {
      int k = choose(4);
      name = "WithDimensions";
      set(m.gt, k + 1, m.ct);
      apply([&] { return t.WithDimensions((GeoArrowDimensions)(k + 1)); });
      break;
    }
    case 3: {
      int k = choose(3);
      name = "WithCoordType";
      set(m.gt, m.dims, k);
      apply([&] { return t.WithCoordType((GeoArrowCoordType)k); });
      break;
    }
    case 4: {
      n.edge = GEOARROW_EDGE_TYPE_PLANAR + choose(6);
      t = t.WithEdgeType((GeoArrowEdgeType)n.edge);
      break;
    }
    case 5: {
      const Crs& c = kCrs[choose(6)];
      std::string s = c.s;
      n.crs = c.s;
      n.crs_type = c.type;
      GeometryDataType u = c.type == GEOARROW_CRS_TYPE_UNKNOWN ? t.WithCrs(s) : t.WithCrs(s, (GeoArrowCrsType)c.type);
      s.assign(s.size(), '#');
      t = u;
      break;
    }
    case 6:
      n.crs = lonlat();
      n.crs_type = GEOARROW_CRS_TYPE_PROJJSON;
      t = t.WithCrsLonLat();
      break;
    case 7:
    case 8: {
      bool multi = what == 8;
      int g = m.gt;
      name = multi ? "Multi" : "Simple";
      int to = g >= 1 && g <= 6 ? (multi ? (g - 1) % 3 + 4 : (g - 1) % 3 + 1) : -1;
      set(to, m.dims, m.ct);
      apply([&] { return multi ? t.Multi() : t.Simple(); });
      break;
    }
    case 9: {  // copies
      GeometryDataType a(t), b;
      b = a;
      { GeometryDataType c = GeometryDataType::Make(GEOARROW_TYPE_POINT).WithCrs("other"); t = c; }
      expect_type(a, m, "copy");
      a = GeometryDataType::Make(GEOARROW_TYPE_LINESTRING_Z).WithCrs("yet another");
      expect_type(b, m, "assigned copy");
      t = b;
      break;
    }
    case 10: {  // moves
      GeometryDataType a(std::move(t)), b = GeometryDataType::Make(GEOARROW_TYPE_POLYGON).WithCrs("replaced");
      expect_type(a, m, "moved");
      if (t.id() != GEOARROW_TYPE_UNINITIALIZED || t.crs() != "") fail("moved", "the source of a move keeps its type");
      b = std::move(a);
      expect_type(b, m, "move-assigned");
      GeometryDataType c(a);
      if (c.id() != GEOARROW_TYPE_UNINITIALIZED || c.crs() != "") fail("moved", "a copy of the source of a move has a type");
      t = b;
      break;
    }
    case 11: {  // through a schema
      OwnedSchema s;
      t.InitSchema(&s.s);
      GeometryDataType u = GeometryDataType::Make((const ArrowSchema*)&s.s);
      s.s.release(&s.s);
      t = u;
      break;
    }
    case 12: {  // through the storage type
      OwnedSchema s;
      t.InitStorageSchema(&s.s);
      GeometryDataType u = GeometryDataType::Make(&s.s, t.extension_name(), t.extension_metadata());
      s.s.release(&s.s);
      t = u;
      break;
    }
    case 13: {  // through the identifier
      std::string md = t.extension_metadata();
      GeometryDataType u = GeometryDataType::Make(t.id(), md);
      md.assign(md.size(), '#');
      t = u;
      break;
    }
    case 14: {
      if (id_of(m.gt, m.dims, m.ct) != m.id) refuse = true;
      name = "Make";
      apply([&] { return GeometryDataType::Make(t.geometry_type(), t.dimensions(), t.coord_type(), t.extension_metadata()); });
      break;
    }
  }
  if (refuse) {
    expect_type(t, m, "after a refused change");
    return false;
  }
  m = n;
  return true;
}
static void sc_types() {
  static std::vector<int> ids = all_ids();
  MType m = mtype(vf::pick(ids));
  GeometryDataType t = GeometryDataType::Make((GeoArrowType)m.id);
  expect_type(t, m, "Make");
  int depth = vf::thorough() ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    if (!type_op(t, m)) break;
    vf::state(vf::hash_str(fmt("%d %d %d %s", m.id, m.edge, m.crs_type, m.crs.c_str()).c_str()));
    expect_type(t, m, fmt("after operation %d", i).c_str());
  }
}
static void sc_type_misc() {
  switch (choose(4)) {
    case 0: {
      GeometryDataType t, u(t), v;
      v = t;
      MType m;
      m.crs_type = (int)t.crs_type(), m.edge = (int)t.edge_type();
      for (auto* x : {&t, &u, &v}) {
        if (x->id() != GEOARROW_TYPE_UNINITIALIZED || x->ToString() != to_string(MType(), 40) || x->crs() != "") fail("default", "a default type has content");
        bool threw = false;
        try {
          x->extension_name();
        } catch (geoarrow::Exception&) {
          threw = true;
        }
        if (!threw) fail("default", "a default type has an extension name");
        threw = false;
        OwnedSchema s;
        try {
          x->InitSchema(&s.s);
        } catch (geoarrow::ErrnoException& e) {
          threw = e.code != 0;
        }
        if (!threw) fail("default", "a default type has a schema");
      }
      break;
    }
    case 1: {
      int gt = choose(9), d = choose(5), ct = choose(3);
      int g = gt == 8 ? (int)T_BOX : gt;
      int id = id_of(g, d, ct);
      bool threw = false;
      try {
        GeometryDataType t = GeometryDataType::Make((GeoArrowGeometryType)g, (GeoArrowDimensions)d, (GeoArrowCoordType)ct);
        if (id) expect_type(t, mtype(id), "Make");
      } catch (geoarrow::Exception&) {
        threw = true;
      }
      vf::state((uint64_t)id);
      if (threw != !id) fail("make", fmt("geometry type %d, dimensions %d, coord type %d: %s", g, d, ct, threw ? "refused" : "accepted"));
      break;
    }
    case 2: {  // what must be refused
      int k = choose(5);
      bool threw = false;
      try {
        OwnedSchema s;
        GeoArrowSchemaInit(&s.s, GEOARROW_TYPE_POINT);
        if (k == 0) GeometryDataType::Make(GEOARROW_TYPE_UNINITIALIZED);
        if (k == 1) GeometryDataType::Make(GEOARROW_TYPE_POINT, "{\"crs\":");
        if (k == 2) GeometryDataType::Make((const ArrowSchema*)&s.s);  // no extension
        if (k == 3) GeometryDataType::Make(&s.s, "geoarrow.polygon");
        if (k == 4) GeometryDataType::Make(&s.s, "geoarrow.point", "not JSON");
      } catch (geoarrow::Exception& e) {
        threw = true;
        if (e.message.empty() || e.message != e.what()) fail("exception", "no message");
        auto* x = dynamic_cast<geoarrow::ErrnoException*>(&e);
        if (k && (!x || x->code != EINVAL)) fail("exception", "no code");
      }
      if (!threw) fail("refused", fmt("invalid type %d was accepted", k));
      break;
    }
    case 3:
      expect_type(geoarrow::Wkb(), mtype(GEOARROW_TYPE_WKB), "Wkb");
      expect_type(geoarrow::Wkt(), mtype(GEOARROW_TYPE_WKT), "Wkt");
      expect_type(geoarrow::Box(), mtype(GEOARROW_TYPE_BOX), "Box");
      expect_type(geoarrow::Point(), mtype(GEOARROW_TYPE_POINT), "Point");
      expect_type(geoarrow::Linestring(), mtype(GEOARROW_TYPE_LINESTRING), "Linestring");
      expect_type(geoarrow::Polygon(), mtype(GEOARROW_TYPE_POLYGON), "Polygon");
      break;
  }
}

// --------------------------------------------------------------- writer, reader

// makes a reader, writer or builder in one of three ways; nullptr: refused with this code
template <typename T>
static std::unique_ptr<T> make(int type, int how, int* code) {
  *code = 0;
  std::unique_ptr<T> o;
  op();
  try {
    if (how == 0) o.reset(new T((GeoArrowType)type));
    else if (how == 1) {
      GeometryDataType t = GeometryDataType::Make((GeoArrowType)type);
      o.reset(new T(t));
    } else {
      OwnedSchema s;
      if (int rc = GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type)) throw geoarrow::ErrnoException(rc, "schema", nullptr);
      o.reset(new T((const ArrowSchema*)&s.s));
    }
  } catch (geoarrow::ErrnoException& e) {
    *code = e.code;
    if (!e.code) fail("exception", "no code");
  }
  return o;
}
static std::vector<Feat> read_all(const ArrowArray* a, int type, int how, int from, int n) {
  int code;
  auto r = make<ArrayReader>(type, how, &code);
  if (!r) fail("reader", fmt("no reader for type %d: %d", type, code));
  r->SetArrayNonOwning(a);
  Rec rec;
  op();
  GeoArrowError e;
  if (int rc = r->Visit(&rec.v, from, n, &e)) fail("visit", fmt("visiting type %d gives code %d", type, rc));
  rec.done();
  vf::raise_deferred();
  std::vector<Feat> o;
  for (auto& f : rec.feats) o.push_back(canon(f));
  return o;
}
static Feat make_feat(int type, int variant, Values& v) {
  Feat f;
  if (variant == 3) {
    f.null = true;
    return f;
  }
  static const int kG[] = {T_MULTIPOINT, T_GC, T_POLYGON};
  if (is_native(type)) f.g = shape(type % 1000, type / 1000 % 10 + 1, type % 1000 == T_POINT ? (variant & 1) : variant, v);
  else f.g = shape(kG[variant], 1 + variant % 4, variant ? variant : 1, v);
  return f;
}

static void sc_writer() {
  static const int ts[] = {GEOARROW_TYPE_POINT_ZM, GEOARROW_TYPE_INTERLEAVED_LINESTRING_M, GEOARROW_TYPE_POLYGON, GEOARROW_TYPE_MULTIPOLYGON_Z,
                           GEOARROW_TYPE_INTERLEAVED_MULTIPOINT, GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT};
  int type = ts[choose(7)], how = choose(3), code;
  auto w = make<ArrayWriter>(type, how, &code);
  if (!w) fail("writer", fmt("no writer for type %d: %d", type, code));
  int nb = vf::thorough() ? 3 : 2;
  Values v;
  std::vector<std::unique_ptr<Owned>> outs;
  std::vector<std::vector<Feat>> want;
  GeoArrowVisitor* first = nullptr;
  for (int b = 0; b < nb; b++) {
    std::vector<Feat> fs;
    int n = choose(3);
    GeoArrowVisitor* vis = w->visitor();
    if (!first) first = vis;
    if (vis != first) fail("visitor", "another visitor");
    GeoArrowError err;
    vis->error = &err;
    for (int i = 0; i < n; i++) {
      Feat f = make_feat(type, choose(4), v);
      if (emit_feat(f, vis)) fail("write", "a feature was refused: " + str(f));
      fs.push_back(canon(f));
    }
    outs.emplace_back(new Owned());
    op();
    w->Finish(&outs.back()->a);
    want.push_back(fs);
  }
  if (flip()) w.reset();  // the arrays are independent of the writer
  for (int b = 0; b < nb; b++) {
    int n = (int)want[b].size();
    if (outs[b]->a.length != n) fail("length", fmt("batch %d has %ld rows instead of %d", b, (long)outs[b]->a.length, n));
    int from = n ? choose(2) : 0;
    std::vector<Feat> got = read_all(&outs[b]->a, type, (how + b) % 3, from, n - from), sub(want[b].begin() + from, want[b].end());
    vf::state(ref::hash(got));
    if (!fseq(got, sub)) fail("rows", fmt("type %d batch %d: ", type, b) + str(got) + " instead of " + str(sub));
  }
}

static std::string wkt_of(ArrowArray* a, int row) {
  const int32_t* o = (const int32_t*)a->buffers[1];
  return std::string((const char*)a->buffers[2] + o[row], (size_t)(o[row + 1] - o[row]));
}
// settings of the writer have the effect of those of the C library
static void sc_settings() {
  static std::vector<int> ids = all_ids();
  int type = vf::pick(ids);
  int code, rc;
  GeoArrowArrayWriter cw;
  rc = GeoArrowArrayWriterInitFromType(&cw, (GeoArrowType)type);
  auto w = make<ArrayWriter>(type, choose(3), &code);
  if ((w != nullptr) != (rc == 0) || (!w && code != rc)) fail("writer", fmt("type %d: code %d, the C library gives %d", type, code, rc));
  if (!w) return;
  int precision = choose(5) * 4 - 1, flat = choose(3);  // flat 2: not set
  int c1 = 0, c2 = 0, r1 = 0, r2 = 0;
  if (precision >= 0) {
    r1 = GeoArrowArrayWriterSetPrecision(&cw, precision);
    try {
      w->SetPrecision(precision);
    } catch (geoarrow::ErrnoException& e) {
      c1 = e.code;
    }
  }
  if (flat < 2) {
    r2 = GeoArrowArrayWriterSetFlatMultipoint(&cw, flat);
    try {
      w->SetFlatMultipoint(flat == 1);
    } catch (geoarrow::ErrnoException& e) {
      c2 = e.code;
    }
  }
  std::string a, b;
  if (type == GEOARROW_TYPE_WKT) {
    if (r1 || r2) {
      GeoArrowArrayWriterReset(&cw);
      fail("settings", "settings of a WKT writer were refused");
    }
    Geom g = mk(T_MULTIPOINT, 1);
    for (int i = 0; i < 2; i++) {
      Geom p = mk(T_POINT, 1);
      p.coords.push_back(C4{{1.0 / 3 + i, 2.0 / 3 + i, 0, 0}});
      g.parts.push_back(p);
    }
    Feat f;
    f.g = g;
    GeoArrowVisitor v;
    GeoArrowArrayWriterInitVisitor(&cw, &v);
    GeoArrowError err;
    v.error = &err;
    emit_feat(f, &v);
    GeoArrowVisitor* u = w->visitor();
    u->error = &err;
    emit_feat(f, u);
    Owned x, y;
    GeoArrowArrayWriterFinish(&cw, &x.a, &err);
    w->Finish(&y.a);
    a = wkt_of(&x.a, 0);
    b = wkt_of(&y.a, 0);
  }
  GeoArrowArrayWriterReset(&cw);
  op(4);
  vf::state(vf::hash_str(a.c_str()) + (uint64_t)type);
  if (c1 != r1 || c2 != r2) fail("settings", fmt("type %d: codes %d, %d, the C library gives %d, %d", type, c1, c2, r1, r2));
  if (a != b) fail("settings", "wrote " + b + ", the C library writes " + a);
  // readers and builders, too
  GeoArrowArrayReader cr;
  rc = GeoArrowArrayReaderInitFromType(&cr, (GeoArrowType)type);
  if (!rc) GeoArrowArrayReaderReset(&cr);
  auto r = make<ArrayReader>(type, choose(3), &code);
  if ((r != nullptr) != (rc == 0) || (!r && code != rc)) fail("reader", fmt("type %d: code %d, the C library gives %d", type, code, rc));
}

// histories of one reader over several arrays
static void sc_reader() {
  static const int ts[] = {GEOARROW_TYPE_LINESTRING_Z, GEOARROW_TYPE_INTERLEAVED_POINT, GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKT};
  int type = ts[choose(4)], code;
  long live0 = Arr::live;
  {
    struct Hand {
      std::vector<Arr*> h;
      ~Hand() {
        for (auto* a : h) delete a;
      }
    } hand;
    std::vector<std::unique_ptr<Owned>> arrs;
    std::vector<std::vector<Feat>> rows;
    Values v;
    for (int i = 0; i < 3; i++) {
      std::vector<Feat> fs;
      for (int k = 0; k <= i; k++) fs.push_back(make_feat(type, k == 2 ? 3 : k, v));
      arrs.emplace_back(new Owned());
      NatOpts o;
      o.off[0] = i;
      if (is_native(type)) build_native(NType{type % 1000, type / 1000 % 10 + 1, type / 10000 == 1}, fs, o, *arrs.back());
      else {
        std::vector<std::string> vals;
        std::vector<bool> ok;
        for (auto& f : fs) {
          Bytes b;
          std::string t;
          if (!f.null && type == GEOARROW_TYPE_WKB) wkb(f.g, b, WkbOpts()), t.assign(b.begin(), b.end());
          else if (!f.null) t = wkt(f.g, WktOpts());
          vals.push_back(t);
          ok.push_back(!f.null);
        }
        build_serialized(vals, ok, o, *arrs.back(), type == GEOARROW_TYPE_LARGE_WKT);
      }
      for (auto& f : fs) f = canon(f);
      rows.push_back(fs);
      hand.h.push_back(arrs.back()->hand);
      arrs.back()->hand = nullptr;  // deleted below, when nobody has the array any more
    }
    int given = -1, cur = -1;
    std::vector<int> owned(3, 0);  // 1: the reader has it, 2: released
    {
      auto r = make<ArrayReader>(type, choose(3), &code);
      if (!r) fail("reader", "no reader");
      int depth = vf::thorough() ? 5 : 4;
      for (int step = 0; step < depth; step++) {
        int what = choose(5);
        op();
        if (what == 0) break;
        if (what == 1) {  // hand over
          int k = choose(3);
          vf::assume(!owned[k]);
          r->SetArray(&arrs[k]->a);
          if (arrs[k]->a.release) fail("owner", "the array was not taken");
          if (given >= 0) owned[given] = 2;
          given = cur = k;
          owned[k] = 1;
        } else if (what == 2) {
          int k = choose(3);
          vf::assume(!owned[k]);
          r->SetArrayNonOwning(&arrs[k]->a);
          if (!arrs[k]->a.release) fail("owner", "the array was taken");
          cur = k;
        } else if (what == 3) {
          vf::assume(cur >= 0);
          int n = (int)rows[cur].size(), from = choose(n + 1);
          Rec rec;
          GeoArrowError e;
          if (int rc = r->Visit(&rec.v, from, n - from, flip() ? &e : nullptr)) fail("visit", fmt("code %d", rc));
          std::vector<Feat> got, want(rows[cur].begin() + from, rows[cur].end());
          for (auto& f : rec.feats) got.push_back(canon(f));
          vf::state(ref::hash(got));
          if (!fseq(got, want)) fail("rows", str(got) + " instead of " + str(want));
        } else {
          vf::assume(cur >= 0);
          bool threw = false;
          try {
            geoarrow::ArrayView& view = r->View();
            const GeoArrowArrayView* av = view.array_view();
            if (!view.is_valid() || !av || (int)av->schema_view.type != type) fail("view", "the view has another type");
            if (av->length[0] != (int64_t)rows[cur].size() || av->offset[0] != cur) fail("view", "the view has another length or offset");
          } catch (geoarrow::ErrnoException& e) {
            threw = true;
          }
          if (threw != (type == GEOARROW_TYPE_LARGE_WKT)) fail("view", threw ? "no view" : "a view of a type that has none");
        }
      }
    }
    for (int k = 0; k < 3; k++) {
      if (owned[k] == 1) owned[k] = 2;
      if (owned[k] == 0 && !arrs[k]->a.release) fail("owner", "an array that was not given was released");
    }
    arrs.clear();
  }
  if (Arr::live != live0) fail("leak", fmt("%ld arrays were not released", Arr::live - live0));
}
static void sc_reader_refuse() {
  long live0 = Arr::live;
  {
    Arr* a = arr_new(1, 0);  // a struct without children
    arr_buf(a, nullptr, 0, true);
    ArrowArray x = a->a;
    {
      int code;
      auto r = make<ArrayReader>(flip() ? GEOARROW_TYPE_POINT : GEOARROW_TYPE_WKB, choose(3), &code);
      bool threw = false, own = flip();
      op();
      try {
        if (own) r->SetArray(&x);
        else r->SetArrayNonOwning(&x);
      } catch (geoarrow::ErrnoException& e) {
        threw = e.code == EINVAL && !e.message.empty();
      }
      if (!threw) fail("refused", "an array of another type was accepted");
      if (own != (x.release == nullptr)) fail("owner", "wrong owner after a refusal");
      vf::state(own);
    }
    if (x.release) x.release(&x);
    delete a;
  }
  if (Arr::live != live0) fail("leak", fmt("%ld arrays were not released", Arr::live - live0));
}

// -------------------------------------------------------------------- builder

static long g_tracked = 0;
template <typename T>
struct Tracked {  // a buffer that counts itself
  typedef T value_type;
  std::vector<T> v;
  bool counted = true;
  explicit Tracked(std::vector<T> x) : v(std::move(x)) { g_tracked++; }
  Tracked(Tracked&& o) : v(std::move(o.v)) {
    o.counted = false;
  }
  Tracked(const Tracked&) = delete;
  ~Tracked() {
    if (counted) g_tracked--;
    v.assign(v.size(), T());
  }
  const T* data() const { return v.data(); }
  size_t size() const { return v.size(); }
};
template <typename T>
static std::vector<T> vec(const void* p, int64_t n) {
  return std::vector<T>((const T*)p, (const T*)p + n);
}

// puts a buffer in place in one of the ways
template <typename T>
static void put(ArrayBuilder& b, int64_t i, int how, const std::vector<T>& v) {
  op();
  if (how == 0) b.AppendToBuffer(i, v);
  else if (how == 1) b.SetBufferWrapped(i, Tracked<T>(v));
  else if (how == 2) {
    Tracked<T> t(v);
    GeoArrowBufferView view{(const uint8_t*)t.data(), (int64_t)(v.size() * sizeof(T))};
    b.SetBufferWrapped(i, std::move(t), view);
  } else {  // in two pieces
    size_t h = v.size() / 2;
    b.AppendToBuffer(i, std::vector<T>(v.begin(), v.begin() + (long)h));
    b.AppendToBuffer(i, std::vector<T>(v.begin() + (long)h, v.end()));
  }
}

static void sc_builder() {
  NType t{1 + choose(6), 1, false};
  int c = choose(8);
  t.dims = 1 + c % 4;
  t.interleaved = c / 4;
  std::vector<Feat> rows;
  Values v;
  int n = choose(3);
  bool nulls = false;
  for (int i = 0; i < n; i++) {
    Feat f = make_feat(t.type(), choose(2) * 2 + 1, v);
    nulls = nulls || f.null;
    rows.push_back(canon(f));
  }
  long tracked0 = g_tracked;
  NatOpts o;
  o.validity = nulls;
  Owned src;
  build_native(t, rows, o, src);
  int hv = nulls ? choose(4) : 4, ho = choose(5), hc = choose(5);
  bool finish = flip();
  Owned out;
  int code;
  {
    auto b = make<ArrayBuilder>(t.type(), choose(3), &code);
    if (!b) fail("builder", "no builder");
    if (nulls) put(*b, 0, hv, vec<uint8_t>(src.a.buffers[0], (n + 7) / 8));
    const ArrowArray* a = &src.a;
    int lev = n_offsets(t.geometry_type);
    for (int i = 0; i < lev; i++) {
      std::vector<int32_t> off = vec<int32_t>(a->buffers[1], a->length + 1);
      if (ho == 4) {
        op();
        b->AppendToOffsetBuffer(i, off);
      } else
        put(*b, 1 + i, ho, off);
      a = a->children[0];
    }
    int nd = kND[t.dims];
    if (hc == 4) {
      std::vector<const double*> vals;
      int64_t len = t.interleaved ? a->children[0]->length / nd : a->length;
      GeoArrowCoordView cv;
      memset(&cv, 0, sizeof cv);
      cv.n_coords = len;
      cv.n_values = nd;
      cv.coords_stride = t.interleaved ? nd : 1;
      for (int j = 0; j < nd; j++) cv.values[j] = t.interleaved ? (const double*)a->children[0]->buffers[1] + j : (const double*)a->children[j]->buffers[1];
      op();
      b->AppendCoords(&cv, (GeoArrowDimensions)t.dims, 0, len);
    } else
      for (int j = 0; j < (t.interleaved ? 1 : nd); j++) put(*b, 1 + lev + j, hc, vec<double>(a->children[j]->buffers[1], a->children[j]->length));
    // a buffer that does not exist is refused, and its content released
    long before = g_tracked;
    int threw = 0;
    for (int k = 0; k < 3; k++) try {
        int64_t i = k == 0 ? -1 : 1 + lev + (t.interleaved ? 1 : nd);
        op();
        if (k < 2) b->SetBufferWrapped(i, Tracked<double>(std::vector<double>{1, 2}));
        else b->SetBufferWrapped(i, Tracked<double>(std::vector<double>{1, 2}), GeoArrowBufferView{nullptr, 0});
      } catch (geoarrow::ErrnoException& e) {
        threw += e.code != 0;
      }
    if (threw != 3 || g_tracked != before) fail("refused", "a buffer beyond the last one was accepted, or is leaked");
    if (finish) b->Finish(&out.a);
  }
  if (!finish && g_tracked != tracked0) fail("leak", fmt("%ld buffers were not released", g_tracked - tracked0));
  if (finish) {
    std::vector<Feat> got;
    try {
      for (auto& f : decode_native(t, &out.a)) got.push_back(canon(f));
    } catch (ref::Invalid& e) {
      fail("invalid", "the array is not valid");
    }
    vf::state(ref::hash(got));
    if (!fseq(got, rows)) fail("rows", fmt("type %d: ", t.type()) + str(got) + " instead of " + str(rows));
    out.reset();
    if (g_tracked != tracked0) fail("leak", fmt("%ld buffers were not released", g_tracked - tracked0));
  }
}

// ------------------------------------------- every allocation of these may fail

static void sc_faults() {
  static const int ts[] = {GEOARROW_TYPE_POINT, GEOARROW_TYPE_INTERLEAVED_MULTIPOLYGON, GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT};
  int type = ts[choose(4)], how = choose(3), nth = choose(vf::thorough() ? 200 : 80);
  bool persist = flip();
  long live0 = Arr::live;
  Values v;
  std::vector<Feat> fs;
  for (int i = 0; i < 2; i++) fs.push_back(make_feat(type, i + 1, v));
  bool failed = false, hit;
  std::vector<Feat> got;
  {
    vf_alloc_reset();
    vf_alloc_fail(nth, persist);
    Owned out;
    try {
      int code;
      auto w = make<ArrayWriter>(type, how, &code);
      if (!w) throw geoarrow::ErrnoException(code, "writer", nullptr);
      GeoArrowVisitor* vis = w->visitor();
      GeoArrowError err;
      memset(&err, 0, sizeof err);
      vis->error = &err;
      for (auto& f : fs)
        if (int rc = emit_feat(f, vis)) throw geoarrow::ErrnoException(rc, "write", nullptr);
      w->Finish(&out.a);
      auto r = make<ArrayReader>(type, how, &code);
      if (!r) throw geoarrow::ErrnoException(code, "reader", nullptr);
      r->SetArray(&out.a);
      Rec rec;
      if (int rc = r->Visit(&rec.v, 0, 2, &err)) throw geoarrow::ErrnoException(rc, "visit", nullptr);
      for (auto& f : rec.feats) got.push_back(canon(f));
    } catch (geoarrow::ErrnoException& e) {
      failed = true;
      if (e.code != ENOMEM) {
        vf_alloc_reset();
        fail("code", fmt("code %d instead of ENOMEM: ", e.code) + e.message);
      }
    } catch (geoarrow::Exception& e) {  // made by the harness's own type
      failed = true;
    }
    hit = vf_fault_hits() > 0;
    vf_alloc_reset();
  }
  for (auto& f : fs) f = canon(f);
  vf::state(ref::hash(got) + (uint64_t)failed);
  if (failed && !hit) fail("error", "an error without a failed allocation");
  if (!failed && !fseq(got, fs)) fail("rows", str(got) + " instead of " + str(fs));
  if (Arr::live != live0) fail("leak", "arrays were not released");
  vf::assume(hit);
}

int main(int argc, char** argv) {
  return vf::main_(
      argc, argv,
      {{"data_types", sc_types, true, "58 types: all sequences of 2 (3) of 15 kinds of operations with all arguments, against a model"},
       {"type_misc", sc_type_misc, true, "default, invalid and named types; all combinations of geometry type, dimensions and coord type"},
       {"writer", sc_writer, true, "7 types x 3 ways of construction x 2 (3) batches of up to 2 features of 4 kinds x ranges"},
       {"settings", sc_settings, true, "58 types x precisions x flat multipoints, against the C library"},
       {"reader", sc_reader, true, "4 types: all histories of 4 (5) operations on one reader and 3 arrays"},
       {"reader_refuse", sc_reader_refuse, true, "arrays of another type, given or lent"},
       {"builder", sc_builder, true, "48 types x up to 2 rows x 5 ways to fill in the validity, offsets and coordinates"},
       {"faults", sc_faults, true, "4 types x 3 ways x each of the first 80 (200) allocations fails, once or for good"}});
}
