// C10: types and Arrow schemas.
#include "h.h"
using namespace h;

// ------------------------------------------------------------ a schema as a value
struct Sch {
  std::string format;
  bool has_name = true;
  std::string name;
  int64_t flags = 2;
  bool released = false;
  std::vector<Sch> kids;
};
static char* dup(const std::string& s) {
  char* p = (char*)malloc(s.size() + 1);
  memcpy(p, s.c_str(), s.size() + 1);
  return p;
}
static void rel(ArrowSchema* s) {
  free((void*)s->format);
  free((void*)s->name);
  free((void*)s->metadata);
  for (int64_t i = 0; i < s->n_children; i++) {
    if (s->children[i]->release) s->children[i]->release(s->children[i]);
    free(s->children[i]);
  }
  free(s->children);
  s->release = nullptr;
}
// Every string and array is in an allocation of its own.
static void make(const Sch& x, ArrowSchema* s) {
  memset(s, 0, sizeof *s);
  if (x.released) return;
  s->format = dup(x.format);
  s->name = x.has_name ? dup(x.name) : nullptr;
  s->flags = x.flags;
  s->n_children = (int64_t)x.kids.size();
  s->children = x.kids.empty() ? nullptr : (ArrowSchema**)malloc(x.kids.size() * sizeof(ArrowSchema*));
  for (size_t i = 0; i < x.kids.size(); i++) {
    s->children[i] = (ArrowSchema*)malloc(sizeof(ArrowSchema));
    make(x.kids[i], s->children[i]);
  }
  s->release = rel;
}
static char* metadata(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string o;
  auto i32 = [&](size_t n) {
    int32_t v = (int32_t)n;
    o.append((const char*)&v, 4);
  };
  i32(kv.size());
  for (auto& e : kv) i32(e.first.size()), o += e.first, i32(e.second.size()), o += e.second;
  char* p = (char*)malloc(o.size());
  memcpy(p, o.data(), o.size());
  return p;
}
static std::string str_of(const Sch& s) {
  if (s.released) return "(released)";
  std::string o = (s.has_name ? "\"" + s.name + "\"" : std::string("NULL")) + ":" + s.format;
  if (!s.kids.empty()) {
    o += "<";
    for (size_t i = 0; i < s.kids.size(); i++) o += (i ? " " : "") + str_of(s.kids[i]);
    o += ">";
  }
  return o;
}
static std::string str_of(const ArrowSchema& s) {
  std::string o = (s.name && *s.name ? "\"" + std::string(s.name) + "\"" : std::string("\"\"")) + ":" + s.format + (s.flags & ARROW_FLAG_NULLABLE ? "?" : "");
  if (s.n_children) {
    o += "<";
    for (int64_t i = 0; i < s.n_children; i++) o += (i ? " " : "") + str_of(*s.children[i]);
    o += ">";
  }
  return o;
}

// ------------------------------------------------------------ the specification
static const char* kDims[] = {"", "xy", "xyz", "xym", "xyzm"};
struct Sup {
  int type, geom, dims, coord;
  const char* ext;
  const char* storage;  // serialised types only
};
static const std::vector<Sup>& supported() {
  static std::vector<Sup> v = [] {
    std::vector<Sup> o;
    static const char* E[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
    for (int c = 1; c <= 2; c++)
      for (int d = 1; d <= 4; d++) {
        for (int g = 1; g <= 6; g++) o.push_back({(c == 2 ? 10000 : 0) + (d - 1) * 1000 + g, g, d, c, E[g], nullptr});
        if (c == 1) o.push_back({(d - 1) * 1000 + 990, 990, d, c, "geoarrow.box", nullptr});
      }
    o.push_back({100001, 0, 0, 0, "geoarrow.wkb", "z"});
    o.push_back({100002, 0, 0, 0, "geoarrow.wkb", "Z"});
    o.push_back({100003, 0, 0, 0, "geoarrow.wkt", "u"});
    o.push_back({100004, 0, 0, 0, "geoarrow.wkt", "U"});
    o.push_back({100005, 0, 0, 0, "geoarrow.wkb", "vz"});
    o.push_back({100006, 0, 0, 0, "geoarrow.wkt", "vu"});
    return o;
  }();
  return v;
}
static const Sup* find(int type) {
  for (auto& s : supported())
    if (s.type == type) return &s;
  return nullptr;
}
static Sch leaf(const std::string& name) {
  Sch s;
  s.format = "g";
  s.name = name;
  s.flags = 0;
  return s;
}
static Sch coord(int dims, int ct) {
  Sch s;
  std::string d = kDims[dims];
  if (ct == 1) {
    s.format = "+s";
    for (char c : d) s.kids.push_back(leaf(std::string(1, c)));
  } else {
    s.format = "+w:" + std::to_string(d.size());
    s.kids.push_back(leaf(d));
  }
  return s;
}
static Sch storage(const Sup& t) {
  Sch s;
  if (t.storage) {
    s.format = t.storage;
    return s;
  }
  if (t.geom == 990) {
    s.format = "+s";
    for (auto mm : {"min", "max"})
      for (const char* p = kDims[t.dims]; *p; p++) s.kids.push_back(leaf(std::string(1, *p) + mm));
    return s;
  }
  static const std::vector<const char*> N[] = {{}, {}, {"vertices"}, {"rings", "vertices"}, {"points"}, {"linestrings", "vertices"}, {"polygons", "rings", "vertices"}};
  s = coord(t.dims, t.coord);
  for (size_t i = N[t.geom].size(); i > 0; i--) {
    s.name = N[t.geom][i - 1];
    s.flags = 0;
    Sch l;
    l.format = "+l";
    l.kids.push_back(s);
    s = l;
  }
  return s;
}

// The type that a schema describes under an extension name, 0 if it describes none, -1
// if the specification leaves it open.
static int dims_of(const std::string& d) {
  for (int i = 1; i <= 4; i++)
    if (d == kDims[i]) return i;
  return 0;
}
static bool any_released(const Sch& s) {
  if (s.released) return true;
  for (auto& k : s.kids)
    if (any_released(k)) return true;
  return false;
}
static int coord_type(const Sch& s, int& dims) {
  dims = 0;
  if (s.released) return 0;
  if (s.format == "+s") {
    std::string d;
    for (auto& k : s.kids) {
      if (k.released || k.format != "g" || !k.has_name || k.name.size() != 1 || !k.kids.empty()) return 0;
      d += k.name;
    }
    dims = dims_of(d);
    return dims ? 1 : 0;
  }
  if (s.format.compare(0, 3, "+w:") == 0) {
    std::string n = s.format.substr(3);
    if (s.kids.size() != 1 || s.kids[0].released || s.kids[0].format != "g" || !s.kids[0].kids.empty()) return 0;
    if (n != "2" && n != "3" && n != "4") return 0;
    int size = n[0] - '0';
    dims = s.kids[0].has_name ? dims_of(s.kids[0].name) : 0;
    if (!dims) dims = size == 2 ? 1 : size == 3 ? 2 : 4;
    else if ((int)strlen(kDims[dims]) != size) return 0;
    return 2;
  }
  return 0;
}
// A double with children is no valid Arrow schema at all; it may be taken as a double.
static bool double_with_kids(const Sch& s) {
  if (s.format == "g" && !s.kids.empty()) return true;
  for (auto& k : s.kids)
    if (double_with_kids(k)) return true;
  return false;
}
static int describes(const Sch& s, const std::string& ext) {
  if (s.released) return 0;
  if (ext == "geoarrow.wkb" || ext == "geoarrow.wkt") {
    if (!s.kids.empty()) return 0;
    for (auto& t : supported())
      if (t.storage && ext == t.ext && s.format == t.storage) return t.type;
    return 0;
  }
  if (ext == "geoarrow.box") {
    if (s.format != "+s" || s.kids.size() % 2) return 0;
    size_t n = s.kids.size() / 2;
    std::string d;
    for (size_t i = 0; i < 2 * n; i++) {
      const Sch& k = s.kids[i];
      if (k.released || !k.has_name || k.format != "g" || k.name.size() != 4 || !k.kids.empty()) return 0;
      if (k.name.substr(1) != (i < n ? "min" : "max")) return 0;
      if (i < n) d += k.name[0];
      else if (k.name[0] != d[i - n]) return 0;
    }
    int dims = dims_of(d);
    return dims ? (dims - 1) * 1000 + 990 : 0;
  }
  static const struct {
    const char* e;
    int g, depth;
  } G[] = {{"geoarrow.point", 1, 0}, {"geoarrow.linestring", 2, 1}, {"geoarrow.polygon", 3, 2}, {"geoarrow.multipoint", 4, 1}, {"geoarrow.multilinestring", 5, 2}, {"geoarrow.multipolygon", 6, 3}};
  for (auto& g : G)
    if (ext == g.e) {
      const Sch* x = &s;
      for (int i = 0; i < g.depth; i++) {
        if (x->released || x->format != "+l" || x->kids.size() != 1) return 0;
        x = &x->kids[0];
      }
      int dims;
      int ct = coord_type(*x, dims);
      return ct ? (ct == 2 ? 10000 : 0) + (dims - 1) * 1000 + g.g : 0;
    }
  return 0;
}

// ------------------------------------------------------------ scenarios
static std::string view_str(const GeoArrowSchemaView& v) {
  return fmt("type %d geometry type %d dimensions %d coord type %d", v.type, v.geometry_type, v.dimensions, v.coord_type);
}
static std::string want_str(const Sup& t) { return fmt("type %d geometry type %d dimensions %d coord type %d", t.type, t.geom, t.dims, t.coord); }
static std::string text(const GeoArrowStringView& s) { return s.data ? std::string(s.data, (size_t)s.size_bytes) : std::string(); }

// All values of the type enumeration and what surrounds them.
static void types() {
  int block = choose(250);
  static const int kBase[] = {-3000, 97000};
  for (int i = 0; i < 200; i++) {
    int type = block < 220 ? kBase[0] + block * 200 + i : kBase[1] + (block - 220) * 200 + i;
    const Sup* t = find(type);
    GeoArrowType ty = (GeoArrowType)type;
    op();
    int g = GeoArrowGeometryTypeFromType(ty), d = GeoArrowDimensionsFromType(ty), c = GeoArrowCoordTypeFromType(ty);
    const char* ext = GeoArrowExtensionNameFromType(ty);
    std::string what = fmt("type %d", type);
    if (t) {
      if (g != t->geom || d != t->dims || c != t->coord) fail("parts", what + fmt(" consists of %d %d %d", g, d, c));
      if (!ext || strcmp(ext, t->ext)) fail("ext", what + " has another extension name");
      int m = GeoArrowMakeType((GeoArrowGeometryType)g, (GeoArrowDimensions)d, (GeoArrowCoordType)c);
      if (m != (t->storage ? 0 : type)) fail("make", what + fmt(" is recomposed as %d", m));
    }
    GeoArrowSchemaView v;
    memset(&v, 0x55, sizeof v);
    op();
    int rc = GeoArrowSchemaViewInitFromType(&v, ty);
    if (t && rc) fail("view", what + " is rejected");
    if (t && (view_str(v) != want_str(*t) || text(v.extension_name) != t->ext || v.schema || v.extension_metadata.size_bytes || v.extension_metadata.data))
      fail("view", what + " has the view " + view_str(v));
    if (!t && type == 0 && (rc || v.type != 0)) fail("view", "uninitialized type");
    for (int e = 0; e < 2; e++) {
      OwnedSchema s;
      memset(&s.s, 0x55, sizeof s.s);
      op();
      // on failure there is either nothing or something to release
      s.s.release = nullptr;
      rc = e ? GeoArrowSchemaInitExtension(&s.s, ty) : GeoArrowSchemaInit(&s.s, ty);
      if (!t && rc == 0) fail("accepted", what + " gives the schema " + str_of(s.s));
      if (!t) continue;
      if (rc) fail("rejected", what + " gives no schema");
      OwnedSchema w;
      make(storage(*t), &w.s);
      if (str_of(s.s) != str_of(w.s)) fail("schema", what + " gives " + str_of(s.s) + " instead of " + str_of(w.s));
      GeoArrowError err;
      if (e) {
        memset(&v, 0x55, sizeof v);
        op();
        if (GeoArrowSchemaViewInit(&v, &s.s, &err)) fail("roundtrip", what + ": the schema is rejected");
        if (view_str(v) != want_str(*t) || text(v.extension_name) != t->ext || text(v.extension_metadata) != "{}") fail("roundtrip", what + " becomes " + view_str(v));
      } else {
        if (s.s.metadata && *(const int32_t*)s.s.metadata) fail("storage", what + ": storage with metadata");
        memset(&v, 0x55, sizeof v);
        Exact en(t->ext, strlen(t->ext));
        op();
        if (GeoArrowSchemaViewInitFromStorage(&v, &s.s, sv(en), &err)) fail("roundtrip", what + ": the storage is rejected");
        if (view_str(v) != want_str(*t) || text(v.extension_name) != t->ext || v.extension_metadata.size_bytes) fail("roundtrip", what + " becomes " + view_str(v));
        memset(&v, 0x55, sizeof v);
        op();
        if (!GeoArrowSchemaViewInit(&v, &s.s, &err)) fail("noext", what + ": storage without extension name is accepted");
      }
    }
    if (t) vf::state(vf::mix(7, (uint64_t)type));
  }
}

// Composition over all parts, dimension mapping and names.
static void parts() {
  int g = choose(11);
  static const int G[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 990, 991};
  for (int d = 0; d <= 4; d++)
    for (int c = 0; c <= 2; c++) {
      op();
      int m = GeoArrowMakeType((GeoArrowGeometryType)G[g], (GeoArrowDimensions)d, (GeoArrowCoordType)c);
      int want = 0;
      for (auto& t : supported())
        if (!t.storage && t.geom == G[g] && t.dims == d && t.coord == c) want = t.type;
      if (G[g] > 6 && G[g] != 990) {
        if (find(m)) fail("make", fmt("MakeType(%d, %d, %d) is %d", G[g], d, c, m));
      } else if (m != want) {
        fail("make", fmt("MakeType(%d, %d, %d) is %d instead of %d", G[g], d, c, m, want));
      }
      vf::state(vf::mix(11, (uint64_t)m));
    }
  static const std::pair<int, const char*> N[] = {{0, "GEOMETRY"}, {1, "POINT"}, {2, "LINESTRING"}, {3, "POLYGON"}, {4, "MULTIPOINT"}, {5, "MULTILINESTRING"}, {6, "MULTIPOLYGON"}, {7, "GEOMETRYCOLLECTION"}, {990, "BOX"}};
  for (auto& n : N)
    if (strcmp(GeoArrowGeometryTypeString((GeoArrowGeometryType)n.first), n.second)) fail("name", n.second);
  for (int s = 0; s <= 4; s++)
    for (int d = 1; d <= 4; d++) {
      int map[4] = {7, 7, 7, 7};
      op();
      GeoArrowMapDimensions((GeoArrowDimensions)s, (GeoArrowDimensions)d, map);
      for (size_t k = 0; k < strlen(kDims[d]); k++) {
        const char* at = s ? strchr(kDims[s], kDims[d][k]) : nullptr;
        int want = s ? (at ? (int)(at - kDims[s]) : -1) : (k < 2 ? (int)k : -1);
        if (map[k] != want) fail("map", fmt("dimension %c of %s from %s is %d", kDims[d][k], kDims[d], kDims[s], map[k]));
      }
      for (size_t k = strlen(kDims[d]); k < 4; k++)
        if (map[k] != -1) fail("map", fmt("dimension %zu of %s from %s is %d", k, kDims[d], kDims[s], map[k]));
    }
  for (int d = 1; d <= 4; d++)
    if (strcmp(GeoArrowDimensionsString((GeoArrowDimensions)d), kDims[d])) fail("name", kDims[d]);
  // the names of every enumerator, and of the values beside them
  auto named = [](const char* (*f)(int), int from, std::vector<const char*> want, const char* what) {
    std::set<std::string> seen;
    // as many bits as the enumerators have: other values are no values of the type
    int end = 1;
    while (end < (int)want.size()) end *= 2;
    for (int i = from; i < end; i++) {
      op();
      const char* n = f(i);
      bool valid = i >= from && i < from + (int)want.size();
      if (!n) fail("name", fmt("%s %d has no name", what, i));
      if (valid ? strcmp(n, want[(size_t)(i - from)]) != 0 : seen.count(n) > 0) fail("name", fmt("%s %d is called %s", what, i, n));
      if (valid) seen.insert(n);
    }
  };
  named([](int i) { return GeoArrowCoordTypeString((GeoArrowCoordType)i); }, 0, {"unknown", "separate", "interleaved"}, "coordinate type");
  named([](int i) { return GeoArrowDimensionsString((GeoArrowDimensions)i); }, 0, {"unknown", "xy", "xyz", "xym", "xyzm"}, "dimensions");
  named([](int i) { return GeoArrowEdgeTypeString((GeoArrowEdgeType)i); }, 0, {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"}, "edge type");
  named([](int i) { return GeoArrowCrsTypeString((GeoArrowCrsType)i); }, 0, {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"}, "CRS type");
  named([](int i) { return GeoArrowGeometryTypeString((GeoArrowGeometryType)i); }, 0,
        {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"}, "geometry type");
  int a, b, cc;
  if (sscanf(GeoArrowVersion(), "%d.%d.%d", &a, &b, &cc) != 3 || GeoArrowVersionInt() != a * 10000 + b * 100 + cc) fail("version", GeoArrowVersion());
}
// The message of an error is within the error, and complete if it fits.
static void errors() {
  size_t size = sizeof(GeoArrowError::message);
  int n = choose(1200);
  std::unique_ptr<GeoArrowError> e(new GeoArrowError);
  memset(e.get(), 0x7f, sizeof *e);
  std::string m;
  for (int i = 0; i < n; i++) m += (char)('a' + i % 26);
  op();
  int rc = GeoArrowErrorSet(e.get(), "%s%c", m.c_str(), 'Z');
  std::string want = (m + 'Z').substr(0, size - 1);
  vf::state(vf::mix(12, (uint64_t)n));
  if (std::string(e->message, strnlen(e->message, size)) != want) fail("error", fmt("a message of %d characters is cut or changed", n + 1));
  if ((rc == 0) != (m.size() + 1 < size)) fail("error", fmt("a message of %d characters gives code %d", n + 1, rc));
  op();
  if (GeoArrowErrorSet(nullptr, "%s", m.c_str())) fail("error", "an error without an address fails");
}

static void check(const Sch& s, const std::string& ext, int how) {
  OwnedSchema o;
  make(s, &o.s);
  GeoArrowSchemaView v;
  memset(&v, 0x55, sizeof v);
  GeoArrowError err;
  memset(&err, 0x7f, sizeof err);
  std::string what = str_of(s) + " with extension name " + quote(ext);
  int rc;
  Exact en(ext.data(), ext.size());
  std::string md = "{\"crs\": null}";
  op();
  if (how == 0) {
    rc = GeoArrowSchemaViewInitFromStorage(&v, &o.s, sv(en), &err);
  } else {
    std::vector<std::pair<std::string, std::string>> kv;
    if (how == 2) kv = {{"ARROW:extension:metadata", md}, {"ARROW:extension:nam", "geoarrow.wkb"}, {"ARROW:extension:name", ext}, {"", ""}};
    else kv = {{"ARROW:extension:name", ext}};
    if (!s.released) o.s.metadata = metadata(kv);
    rc = GeoArrowSchemaViewInit(&v, &o.s, &err);
  }
  int want = double_with_kids(s) ? -1 : describes(s, ext);
  if (rc && (!memchr(err.message, 0, sizeof err.message) || !err.message[0])) fail("message", what + ": no error message");
  if (want == 0 && rc == 0) fail("accepted", what + " is accepted as " + view_str(v));
  if (want > 0) {
    if (rc) fail("rejected", what + " is rejected: " + err.message);
    const Sup* t = find(want);
    if (view_str(v) != want_str(*t)) fail("decoded", what + " is decoded as " + view_str(v) + " instead of " + want_str(*t));
    if (text(v.extension_name) != ext) fail("decoded", what + ": extension name " + text(v.extension_name));
    if (text(v.extension_metadata) != (how == 2 ? md : "")) fail("decoded", what + ": extension metadata " + text(v.extension_metadata));
  }
  vf::state(vf::mix(vf::hash_str(what), (uint64_t)rc));
}

static void nodes(Sch& s, std::vector<Sch*>& out) {
  out.push_back(&s);
  for (auto& k : s.kids) nodes(k, out);
}
// One structural change somewhere in the schema.
static void mutate(Sch& s, bool full) {
  static const char* F[] = {"g", "+s", "+l", "+w:2", "+w:3", "+w:4", "z", "u", "+w:1", "+L", "f", "Z", "U", "vz", "vu", "+w:0", "+w:5", "n", "+m", "+gg", "gg", "+ll", "+w:22", "", "+", "w:42"};
  static const char* N[] = {"x", "y", "z", "m", "xy", "xyz", "xym", "xyzm", "", "xmin", "ymin", "zmin", "mmin", "xmax", "ymax", "zmax", "mmax", "X", "yx", "xymz", "min", "xmi", "xmins", "xMIN", "vertices", "item", "xyzmx"};
  std::vector<Sch*> ns;
  nodes(s, ns);
  Sch& n = *ns[(size_t)choose((int)ns.size())];
  vf::assume(!n.released);
  switch (choose(7)) {
    case 0: {
      const char* f = F[choose(full ? 26 : 10)];
      vf::assume(n.format != f);
      n.format = f;
      break;
    }
    case 1: {
      int k = choose(full ? 28 : 19);
      if (k == 0) {
        vf::assume(n.has_name);
        n.has_name = false;
      } else {
        vf::assume(!n.has_name || n.name != N[k - 1]);
        n.has_name = true;
        n.name = N[k - 1];
      }
      break;
    }
    case 2:
      vf::assume(!n.kids.empty());
      n.kids.erase(n.kids.begin() + choose((int)n.kids.size()));
      break;
    case 3: {
      int k = choose((int)n.kids.size() + 1);
      Sch c = k < (int)n.kids.size() ? n.kids[(size_t)k] : leaf("m");
      n.kids.push_back(c);
      break;
    }
    case 4: {
      vf::assume(n.kids.size() > 1);
      int i = choose((int)n.kids.size() - 1), j = i + 1 + choose((int)n.kids.size() - 1 - i);
      std::swap(n.kids[(size_t)i], n.kids[(size_t)j]);
      break;
    }
    case 5:
      // not significant
      n.flags = n.flags ? 0 : 2;
      break;
    default:
      vf::assume(&n != &s);
      n.released = true;
      n.kids.clear();
  }
}
static const std::vector<std::string>& exts() {
  static std::vector<std::string> v = {"geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon", "geoarrow.box", "geoarrow.wkb", "geoarrow.wkt"};
  return v;
}
static void one_change() {
  const Sup& t = supported()[(size_t)choose((int)supported().size())];
  int how = choose(3);
  Sch s = storage(t);
  if (choose(2)) mutate(s, true);
  note("%s %s", t.ext, str_of(s).c_str());
  for (auto& e : exts()) check(s, e, how);
}
static void two_changes() {
  const Sup& t = supported()[(size_t)choose((int)supported().size())];
  Sch s = storage(t);
  mutate(s, vf::thorough());
  mutate(s, vf::thorough());
  note("%s %s", t.ext, str_of(s).c_str());
  check(s, t.ext, 0);
}
// Every extension name close to a valid one.
static void names() {
  const Sup& t = supported()[(size_t)choose((int)supported().size())];
  int how = choose(3);
  std::string base = exts()[(size_t)choose((int)exts().size())];
  Sch s = storage(t);
  for (size_t i = 0; i <= base.size(); i++) check(s, base.substr(0, i), how);
  for (size_t i = 0; i < base.size(); i++) {
    std::string b = base;
    b.erase(i, 1);
    check(s, b, how);
    b = base;
    b[i] ^= 0x20;
    check(s, b, how);
    b = base;
    b[i] = '\0';
    check(s, b, how);
    b = base;
    b.insert(i, 1, b[i]);
    check(s, b, how);
  }
  for (auto x : {"x", "_view", " ", "XYZ", ".wkb"}) check(s, base + x, how);
  check(s, base + std::string(1, '\0'), how);
  check(s, base + base, how);
  check(s, base + std::string(3000, 'x'), how);
  check(s, "x" + base, how);
  check(s, "arrow" + base.substr(3), how);
}
// All small structs and fixed-size lists under every extension.
static void small() {
  static const char* N[] = {"x", "y", "z", "m", "xmin", "ymin", "xmax", "ymax", "zmin", "mmin", "zmax", "mmax"};
  int kind = choose(3);
  Sch s;
  int depth = choose(kind == 2 ? 1 : 4);
  if (kind == 0) {
    s.format = "+s";
    int n = choose(6);
    for (int i = 0; i < n; i++) s.kids.push_back(leaf(N[choose(n > 4 && !vf::thorough() ? 3 : 5)]));
  } else if (kind == 1) {
    s.format = "+w:" + std::to_string(choose(7));
    static const char* D[] = {"xy", "xyz", "xym", "xyzm", "", "xyzmm", "xyy", "x", "zyx"};
    int n = choose(3);
    for (int i = 0; i < n; i++) {
      s.kids.push_back(leaf(D[choose(9)]));
      s.kids.back().format = choose(2) ? "g" : "f";
    }
  } else {
    // boxes: every sequence of four names, and the six and eight that start well
    s.format = "+s";
    int n = choose(5) * 2;
    static const char* F6[] = {"zmin", "mmin", "xmax"};
    for (int i = 0; i < n; i++) {
      if (n <= 4) s.kids.push_back(leaf(N[4 + choose(8)]));
      else if (i < 2) s.kids.push_back(leaf(N[4 + i]));
      else if (i < n / 2) s.kids.push_back(leaf(F6[choose(3)]));
      else s.kids.push_back(leaf(std::vector<const char*>{"xmax", "ymax", "zmax", "mmax", "zmin"}[(size_t)choose(5)]));
    }
  }
  for (int i = 0; i < depth; i++) {
    Sch l;
    l.format = "+l";
    l.kids.push_back(s);
    s = l;
  }
  note("%s", str_of(s).c_str());
  for (auto& e : exts()) check(s, e, 0);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"types", types, true, "all type numbers from -3000 to 41000 and from 97000 to 103000 x storage and extension"},
                    {"parts", parts, true, "all combinations of geometry type, dimensions and coordinate layout, all dimension maps, all names"},
                    {"errors", errors, true, "error messages of 1..1200 characters"},
                    {"one_change", one_change, true, "58 types x every structural change at every node x 9 extension names x 3 ways to give it"},
                    {"two_changes", two_changes, true, "58 types x every pair of structural changes"},
                    {"names", names, true, "58 types x every single-character change and prefix of the 9 extension names"},
                    {"small", small, true, "all structs of up to 5 named children, fixed-size lists and boxes under up to 3 lists x 9 extension names"}});
}
