// Independent reference model: geometry trees, their enumeration, reference
// encoders / decoders for WKB, WKT and the native Arrow layouts, and an event
// recorder that checks the visitor protocol.  Nothing here calls the library
// except through the public headers' type definitions.
#pragma once
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <string.h>

#include <functional>
#include <memory>
#include <charconv>
#include <string>
#include <vector>

#include "explore.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

namespace ref {

enum { T_GEOMETRY = 0, T_POINT, T_LINESTRING, T_POLYGON, T_MULTIPOINT, T_MULTILINESTRING, T_MULTIPOLYGON, T_GC, T_BOX = 990 };
enum { D_XY = 1, D_XYZ, D_XYM, D_XYZM };
static const int kND[5] = {0, 2, 3, 3, 4};

struct C4 {
  double v[4];
};

struct Geom {
  int type = 0, dims = 1;
  std::vector<C4> coords;
  std::vector<std::vector<C4>> rings;
  std::vector<Geom> parts;
};

struct Feat {
  bool null = false;
  Geom g;
};

inline bool is_nan_bits(double d) { return d != d; }
inline bool deq(double a, double b) {
  if (is_nan_bits(a) && is_nan_bits(b)) return true;
  return memcmp(&a, &b, 8) == 0;
}
inline bool ceq(const C4& a, const C4& b, int nd) {
  for (int i = 0; i < nd; i++)
    if (!deq(a.v[i], b.v[i])) return false;
  return true;
}
inline bool seq_eq(const std::vector<C4>& a, const std::vector<C4>& b, int nd) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!ceq(a[i], b[i], nd)) return false;
  return true;
}
inline bool geq(const Geom& a, const Geom& b) {
  if (a.type != b.type || a.dims != b.dims) return false;
  int nd = kND[a.dims];
  if (!seq_eq(a.coords, b.coords, nd)) return false;
  if (a.rings.size() != b.rings.size() || a.parts.size() != b.parts.size()) return false;
  for (size_t i = 0; i < a.rings.size(); i++)
    if (!seq_eq(a.rings[i], b.rings[i], nd)) return false;
  for (size_t i = 0; i < a.parts.size(); i++)
    if (!geq(a.parts[i], b.parts[i])) return false;
  return true;
}
inline bool feq(const Feat& a, const Feat& b) { return a.null == b.null && (a.null || geq(a.g, b.g)); }

// A point whose ordinates are all NaN is the empty point.
inline Geom canon(Geom g) {
  if (g.type == T_POINT && g.coords.size() == 1) {
    bool all = true;
    for (int i = 0; i < kND[g.dims]; i++) all = all && is_nan_bits(g.coords[0].v[i]);
    if (all) g.coords.clear();
  }
  for (auto& p : g.parts) p = canon(p);
  return g;
}
inline Feat canon(Feat f) {
  if (!f.null) f.g = canon(f.g);
  return f;
}

inline std::string num(double d) {
  if (d != d) return "nan";
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
inline std::string seq_str(const std::vector<C4>& c, int nd) {
  std::string o = "(";
  for (size_t i = 0; i < c.size(); i++) {
    if (i) o += ",";
    for (int j = 0; j < nd; j++) o += (j ? " " : "") + num(c[i].v[j]);
  }
  return o + ")";
}
inline std::string str(const Geom& g) {
  static const char* n[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GC"};
  static const char* d[] = {"?", "", " Z", " M", " ZM"};
  std::string o = g.type == T_BOX ? "BOX" : (g.type >= 0 && g.type <= 7 ? n[g.type] : "??");
  o += g.dims >= 0 && g.dims <= 4 ? d[g.dims] : "??";
  int nd = g.dims >= 0 && g.dims <= 4 ? kND[g.dims] : 0;
  if (!g.coords.empty() || g.type <= 2) o += seq_str(g.coords, nd);
  if (g.type == T_POLYGON || !g.rings.empty()) {
    o += "{";
    for (auto& r : g.rings) o += seq_str(r, nd);
    o += "}";
  }
  if (g.type >= T_MULTIPOINT || !g.parts.empty()) {
    o += "<";
    for (size_t i = 0; i < g.parts.size(); i++) o += (i ? ", " : "") + str(g.parts[i]);
    o += ">";
  }
  return o;
}
inline std::string str(const Feat& f) { return f.null ? "NULL" : str(f.g); }
inline std::string str(const std::vector<Feat>& fs) {
  std::string o = "[";
  for (size_t i = 0; i < fs.size(); i++) o += (i ? "; " : "") + str(fs[i]);
  return o + "]";
}
inline bool fseq(const std::vector<Feat>& a, const std::vector<Feat>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!feq(a[i], b[i])) return false;
  return true;
}
inline uint64_t hash(const Geom& g) { return vf::hash_str(str(g)); }
inline uint64_t hash(const std::vector<Feat>& fs) { return vf::hash_str(str(fs)); }

// ---------------------------------------------------------------- enumeration

// Hands out distinct ordinates so that any misplaced value is visible.
struct Values {
  double next = 1;
  C4 c() {
    C4 o;
    for (int i = 0; i < 4; i++) o.v[i] = next + 0.5 * i + (i & 1 ? 0.25 : 0);
    next += 7;
    return o;
  }
};

struct GenOpts {
  int budget = 5;       // total number of members (coords + rings + parts)
  int max_depth = 2;    // nesting of collections
  int type_mask = 0xFE; // allowed root types (bit per type)
  int dims_mask = 0x1E;
  bool empty_multi_members = true;
  int mixed = 0;        // 1: members of collections, 2: all members, have dimensions of their own
};

struct Gen {
  GenOpts o;
  Values vals;
  int left;
  explicit Gen(const GenOpts& opts) : o(opts), left(opts.budget) {}

  std::vector<C4> seq(int /*dims*/) {
    std::vector<C4> r;
    while (left > 0 && vf::flip()) {
      left--;
      r.push_back(vals.c());
    }
    return r;
  }
  static void trim(Geom& g) {}
  Geom body(int type, int dims, int depth) {
    Geom g;
    g.type = type;
    g.dims = dims;
    switch (type) {
      case T_POINT:
        if (left > 0 && vf::flip()) {
          left--;
          g.coords.push_back(vals.c());
        }
        break;
      case T_LINESTRING:
        g.coords = seq(dims);
        break;
      case T_POLYGON:
        while (left > 0 && vf::flip()) {
          left--;
          g.rings.push_back(seq(dims));
        }
        break;
      case T_MULTIPOINT:
      case T_MULTILINESTRING:
      case T_MULTIPOLYGON:
        while (left > 0 && vf::flip()) {
          left--;
          g.parts.push_back(body(type - 3, o.mixed > 1 ? 1 + vf::choose(4) : dims, depth + 1));
        }
        break;
      case T_GC:
        while (left > 0 && vf::flip()) {
          left--;
          int n = depth + 1 >= o.max_depth ? 6 : 7;
          int t = 1 + vf::choose(n);
          g.parts.push_back(body(t, o.mixed ? 1 + vf::choose(4) : dims, depth + 1));
        }
        break;
    }
    return g;
  }
  Geom geom() {
    std::vector<int> ts, ds;
    for (int i = 1; i <= 7; i++)
      if (o.type_mask & (1 << i)) ts.push_back(i);
    for (int i = 1; i <= 4; i++)
      if (o.dims_mask & (1 << i)) ds.push_back(i);
    int t = vf::pick(ts);
    int d = vf::pick(ds);
    return body(t, d, 0);
  }
};

inline Geom gen_geom(const GenOpts& o) {
  Gen g(o);
  return g.geom();
}

// Drop ordinates beyond the dimensions (so that comparisons see only real ones).
inline Geom mk(int type, int dims) {
  Geom g;
  g.type = type;
  g.dims = dims;
  return g;
}

// A fixed palette of shapes of one type, used where histories rather than shapes
// are enumerated.
inline Geom shape(int type, int dims, int variant, Values& v) {
  Geom g = mk(type, dims);
  auto seq = [&](int n) {
    std::vector<C4> r;
    for (int i = 0; i < n; i++) r.push_back(v.c());
    return r;
  };
  switch (type) {
    case T_POINT:
      if (variant) g.coords = seq(1);
      break;
    case T_LINESTRING:
      g.coords = seq(variant ? variant + 1 : 0);
      break;
    case T_POLYGON:
      for (int i = 0; i < variant; i++) g.rings.push_back(seq(4 - i));
      break;
    case T_MULTIPOINT:
    case T_MULTILINESTRING:
    case T_MULTIPOLYGON:
      for (int i = 0; i < variant; i++) g.parts.push_back(shape(type - 3, dims, 1 + (i & 1 ? type != T_MULTIPOINT : 0), v));
      break;
    case T_GC:
      if (variant >= 1) g.parts.push_back(shape(T_POINT, dims, 1, v));
      if (variant >= 2) g.parts.push_back(shape(T_POLYGON, dims, 1, v));
      if (variant >= 3) g.parts.push_back(shape(T_GC, dims, 1, v));
      break;
  }
  return g;
}

inline int count_coords(const Geom& g) {
  int n = (int)g.coords.size();
  for (auto& r : g.rings) n += (int)r.size();
  for (auto& p : g.parts) n += count_coords(p);
  return n;
}
inline void each_coord(Geom& g, const std::function<void(C4&)>& f) {
  for (auto& c : g.coords) f(c);
  for (auto& r : g.rings)
    for (auto& c : r) f(c);
  for (auto& p : g.parts) each_coord(p, f);
}

// -------------------------------------------------------------------- recorder

struct Rec {
  GeoArrowVisitor v;
  GeoArrowError err;
  std::vector<Feat> feats;
  std::vector<Geom> stack;
  std::vector<std::string> log;
  bool keep_log = false;
  int st = 0;  // 0 outside, 1 feature started, 2 null seen, 3 in geometry, 4 root closed
  bool in_ring = false;
  bool strict = true;   // member types must match their multi type
  bool mixed_dims = false;  // members may have other dimensions than their parent
  bool check = true;    // report protocol violations
  long nev = 0;
  long fail_at = -1;
  int fail_code = 0;
  bool failed = false;
  uint64_t h = 0;

  Rec() {
    memset(&err, 0, sizeof err);
    v.feat_start = [](GeoArrowVisitor* v) { return self(v)->feat_start(); };
    v.null_feat = [](GeoArrowVisitor* v) { return self(v)->null_feat(); };
    v.geom_start = [](GeoArrowVisitor* v, GeoArrowGeometryType t, GeoArrowDimensions d) {
      return self(v)->geom_start((int)t, (int)d);
    };
    v.ring_start = [](GeoArrowVisitor* v) { return self(v)->ring_start(); };
    v.coords = [](GeoArrowVisitor* v, const GeoArrowCoordView* c) { return self(v)->coords(c); };
    v.ring_end = [](GeoArrowVisitor* v) { return self(v)->ring_end(); };
    v.geom_end = [](GeoArrowVisitor* v) { return self(v)->geom_end(); };
    v.feat_end = [](GeoArrowVisitor* v) { return self(v)->feat_end(); };
    v.private_data = this;
    v.error = &err;
  }
  Rec(const Rec&) = delete;
  static Rec* self(GeoArrowVisitor* v) { return (Rec*)v->private_data; }

  void bad(const std::string& m) {
    if (check) vf::defer("protocol", "event stream: " + m + " (event " + std::to_string(nev) + ")");
  }
  int ev(const char* name) {
    if (failed) bad(std::string("call of ") + name + " after a callback had failed");
    long i = nev++;
    h = vf::hash_str(name, h);
    if (keep_log) log.push_back(name);
    if (i == fail_at) {
      failed = true;
      return fail_code;
    }
    return 0;
  }
  int feat_start() {
    int r = ev("feat_start");
    if (r) return r;
    if (st != 0) bad("feature started inside a feature");
    st = 1;
    stack.clear();
    in_ring = false;
    feats.emplace_back();
    feats.back().null = true;
    feats.back().g.type = -1;
    return 0;
  }
  int null_feat() {
    int r = ev("null_feat");
    if (r) return r;
    if (st != 1) bad("null feature not directly after the feature start");
    st = 2;
    return 0;
  }
  int geom_start(int t, int d) {
    int r = ev("geom_start");
    h = vf::mix(h, t * 16 + d);
    if (r) return r;
    if (st != 1 && st != 3) bad("geometry started outside of a feature or after its root ended");
    if (in_ring) bad("geometry started inside a ring");
    if (d < 1 || d > 4) bad("invalid dimensions");
    if (!stack.empty()) {
      int pt = stack.back().type;
      if (pt < T_MULTIPOINT || pt > T_GC) bad("member inside a geometry that has none");
      else if (strict && pt != T_GC && t != pt - 3) bad("member type does not fit the multi type");
      if (strict && !mixed_dims && stack.back().dims != d) bad("member dimensions differ from the parent");
    }
    st = 3;
    Geom g;
    g.type = t;
    g.dims = d;
    stack.push_back(g);
    return 0;
  }
  int ring_start() {
    int r = ev("ring_start");
    if (r) return r;
    if (stack.empty() || stack.back().type != T_POLYGON) bad("ring outside of a polygon");
    if (in_ring) bad("ring inside a ring");
    in_ring = true;
    if (!stack.empty()) stack.back().rings.emplace_back();
    return 0;
  }
  int coords(const GeoArrowCoordView* c) {
    int r = ev("coords");
    if (r) return r;
    if (stack.empty()) {
      bad("coordinates outside of a geometry");
      return 0;
    }
    Geom& g = stack.back();
    int nd = g.dims >= 1 && g.dims <= 4 ? kND[g.dims] : 0;
    if (c->n_values != nd) bad("coordinates with a number of values that differs from the dimensions");
    if (c->n_coords < 0) bad("negative coordinate count");
    if (!in_ring && g.type != T_POINT && g.type != T_LINESTRING) bad("coordinates not allowed here");
    std::vector<C4>* dst = in_ring && !g.rings.empty() ? &g.rings.back() : &g.coords;
    for (int64_t i = 0; i < c->n_coords; i++) {
      C4 x;
      for (int j = 0; j < 4; j++) x.v[j] = j < c->n_values ? GEOARROW_COORD_VIEW_VALUE(c, i, j) : 0;
      dst->push_back(x);
    }
    if (g.type == T_POINT && g.coords.size() > 1) bad("more than one coordinate in a point");
    return 0;
  }
  int ring_end() {
    int r = ev("ring_end");
    if (r) return r;
    if (!in_ring) bad("ring end without a ring");
    in_ring = false;
    return 0;
  }
  int geom_end() {
    int r = ev("geom_end");
    if (r) return r;
    if (in_ring) bad("geometry ended inside a ring");
    if (stack.empty()) {
      bad("geometry end without a start");
      return 0;
    }
    Geom g = std::move(stack.back());
    stack.pop_back();
    if (stack.empty()) {
      st = 4;
      if (feats.empty()) feats.emplace_back();
      feats.back().null = false;
      feats.back().g = std::move(g);
    } else
      stack.back().parts.push_back(std::move(g));
    return 0;
  }
  int feat_end() {
    int r = ev("feat_end");
    if (r) return r;
    if (st != 2 && st != 4) bad("feature end without a complete geometry or null");
    if (!stack.empty()) bad("feature end inside a geometry");
    st = 0;
    return 0;
  }
  void done() {
    if (st != 0 && !failed) bad("stream ended inside a feature");
  }
};

// Sends the canonical event stream of a geometry to any visitor; returns the first
// non-zero code.
inline void fill_view(GeoArrowCoordView& cv, std::vector<double>& buf, const std::vector<C4>& c, size_t from, size_t n,
                      int nd, bool interleaved) {
  buf.assign(n * nd + 1, 0);
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < nd; j++) buf[interleaved ? i * nd + j : j * n + i] = c[from + i].v[j];
  memset(&cv, 0, sizeof cv);
  cv.n_coords = (int64_t)n;
  cv.n_values = nd;
  cv.coords_stride = interleaved ? nd : 1;
  for (int j = 0; j < nd; j++) cv.values[j] = buf.data() + (interleaved ? (size_t)j : j * n);
}

struct EmitOpts {
  int chunk = 0;           // 0: all coordinates in one call
  bool interleaved = true;
  bool emit_empty_coords = false;  // call coords() with zero coordinates
  int* pushy = nullptr;    // go on after an error, whose code is kept here
};

inline int emit_seq(const std::vector<C4>& c, int nd, GeoArrowVisitor* v, const EmitOpts& o) {
  if (c.empty() && !o.emit_empty_coords) return 0;
  size_t step = o.chunk > 0 ? (size_t)o.chunk : c.size();
  if (step == 0) step = 1;
  size_t i = 0;
  do {
    size_t n = std::min(step, c.size() - i);
    // exactly sized so that an over-read is detected
    std::vector<double> tmp;
    GeoArrowCoordView cv;
    fill_view(cv, tmp, c, i, n, nd, o.interleaved);
    std::unique_ptr<double[]> ex(new double[n * nd ? n * nd : 1]);
    if (n * nd) memcpy(ex.get(), tmp.data(), n * nd * sizeof(double));
    for (int j = 0; j < nd; j++) cv.values[j] = ex.get() + (cv.values[j] - tmp.data());
    vf::op();
    int r = v->coords(v, &cv);
    if (r && o.pushy) *o.pushy = r;
    else if (r) return r;
    i += n;
  } while (i < c.size());
  return 0;
}

#define VF_TRY(x)        \
  do {                   \
    vf::op();            \
    int _r = (x);        \
    if (_r && o.pushy) *o.pushy = _r; \
    else if (_r) return _r; \
  } while (0)

inline int emit_geom(const Geom& g, GeoArrowVisitor* v, const EmitOpts& o = EmitOpts()) {
  int nd = kND[g.dims];
  VF_TRY(v->geom_start(v, (GeoArrowGeometryType)g.type, (GeoArrowDimensions)g.dims));
  if (g.type == T_POINT || g.type == T_LINESTRING) {
    int r = emit_seq(g.coords, nd, v, o);
    if (r) return r;
  }
  for (auto& ring : g.rings) {
    VF_TRY(v->ring_start(v));
    int r = emit_seq(ring, nd, v, o);
    if (r) return r;
    VF_TRY(v->ring_end(v));
  }
  for (auto& p : g.parts) {
    int r = emit_geom(p, v, o);
    if (r) return r;
  }
  VF_TRY(v->geom_end(v));
  return 0;
}
inline int emit_feat(const Feat& f, GeoArrowVisitor* v, const EmitOpts& o = EmitOpts()) {
  VF_TRY(v->feat_start(v));
  if (f.null) {
    VF_TRY(v->null_feat(v));
  } else {
    int r = emit_geom(f.g, v, o);
    if (r) return r;
  }
  VF_TRY(v->feat_end(v));
  return o.pushy ? *o.pushy : 0;
}

// ------------------------------------------------------------------------ WKB

typedef std::vector<uint8_t> Bytes;

struct WkbOpts {
  std::function<bool()> little = [] { return true; };  // asked once per (sub)geometry
  bool ewkb = false;
  bool srid = false;  // on the root (EWKB)
  bool srid_all = false;
};
inline void put32(Bytes& b, uint32_t x, bool le) {
  for (int i = 0; i < 4; i++) b.push_back((uint8_t)(x >> (le ? 8 * i : 24 - 8 * i)));
}
inline void put64(Bytes& b, double d, bool le) {
  uint64_t x;
  memcpy(&x, &d, 8);
  for (int i = 0; i < 8; i++) b.push_back((uint8_t)(x >> (le ? 8 * i : 56 - 8 * i)));
}
inline void wkb(const Geom& g, Bytes& b, const WkbOpts& o, bool root = true) {
  bool le = o.little();
  int nd = kND[g.dims];
  b.push_back(le ? 1 : 0);
  uint32_t t = (uint32_t)g.type;
  if (o.ewkb) {
    if (g.dims == D_XYZ || g.dims == D_XYZM) t |= 0x80000000u;
    if (g.dims == D_XYM || g.dims == D_XYZM) t |= 0x40000000u;
    bool srid = o.srid_all || (root && o.srid);
    if (srid) t |= 0x20000000u;
    put32(b, t, le);
    if (srid) put32(b, 4326, le);
  } else {
    put32(b, t + 1000u * (uint32_t)(g.dims - 1), le);
  }
  auto seq = [&](const std::vector<C4>& c) {
    for (auto& x : c)
      for (int j = 0; j < nd; j++) put64(b, x.v[j], le);
  };
  switch (g.type) {
    case T_POINT:
      if (g.coords.empty())
        for (int j = 0; j < nd; j++) put64(b, NAN, le);
      else
        seq(g.coords);
      break;
    case T_LINESTRING:
      put32(b, (uint32_t)g.coords.size(), le);
      seq(g.coords);
      break;
    case T_POLYGON:
      put32(b, (uint32_t)g.rings.size(), le);
      for (auto& r : g.rings) {
        put32(b, (uint32_t)r.size(), le);
        seq(r);
      }
      break;
    default:
      put32(b, (uint32_t)g.parts.size(), le);
      for (auto& p : g.parts) wkb(p, b, o, false);
  }
}

// V_MAY: either rejected or decoded to exactly this value.
// V_ANY: unspecified, only boundedness is required.
enum Verdict { V_OK, V_ERR, V_ANY, V_MAY };

struct WkbParser {
  const uint8_t* p;
  size_t n, i = 0;
  bool any = false;
  bool misfit = false;  // a reader may reject this
  WkbParser(const uint8_t* p_, size_t n_) : p(p_), n(n_) {}
  bool u32(uint32_t& x, bool le) {
    if (n - i < 4) return false;
    x = 0;
    for (int k = 0; k < 4; k++) x |= (uint32_t)p[i + k] << (le ? 8 * k : 24 - 8 * k);
    i += 4;
    return true;
  }
  bool seq(std::vector<C4>& c, uint32_t cnt, int nd, bool le) {
    if ((uint64_t)cnt * nd * 8 > n - i) return false;
    for (uint32_t k = 0; k < cnt; k++) {
      C4 x = {{0, 0, 0, 0}};
      for (int j = 0; j < nd; j++) {
        uint64_t u = 0;
        for (int m = 0; m < 8; m++) u |= (uint64_t)p[i + m] << (le ? 8 * m : 56 - 8 * m);
        memcpy(&x.v[j], &u, 8);
        i += 8;
      }
      c.push_back(x);
    }
    return true;
  }
  bool geom(Geom& g, int level, int parent) {
    if (i >= n) return false;
    uint8_t e = p[i++];
    if (e > 1) any = true;
    bool le = e == 1;
    uint32_t t;
    if (!u32(t, le)) return false;
    if (t & 0x1fff0000u) any = true;
    bool z = t & 0x80000000u, m = t & 0x40000000u;
    if (t & 0x20000000u) {
      uint32_t srid;
      if (!u32(srid, le)) return false;
    }
    t &= 0xffff;
    if (t >= 3000) t -= 3000, z = m = true;
    else if (t >= 2000) t -= 2000, m = true;
    else if (t >= 1000) t -= 1000, z = true;
    if (t < 1 || t > 7) return false;
    g.type = (int)t;
    g.dims = 1 + (z ? 1 : 0) + (m ? 2 : 0);
    int nd = kND[g.dims];
    if (parent >= 0) {
      if (parent != T_GC && parent - 3 != (int)t) misfit = true;
    }
    if (t == T_POINT) return seq(g.coords, 1, nd, le);
    uint32_t cnt;
    if (!u32(cnt, le)) return false;
    if (t == T_LINESTRING) return seq(g.coords, cnt, nd, le);
    if (level >= 255) misfit = true;  // beyond the documented limit: an error, or right
    if (t == T_POLYGON) {
      for (uint32_t k = 0; k < cnt; k++) {
        uint32_t rn;
        if (!u32(rn, le)) return false;
        g.rings.emplace_back();
        if (!seq(g.rings.back(), rn, nd, le)) return false;
      }
      return true;
    }
    for (uint32_t k = 0; k < cnt; k++) {
      g.parts.emplace_back();
      if (!geom(g.parts.back(), level + 1, (int)t)) return false;
    }
    return true;
  }
};

inline Verdict parse_wkb(const uint8_t* p, size_t n, Geom& out) {
  WkbParser w(p, n);
  bool ok = w.geom(out, 0, -1);
  if (w.any) return V_ANY;
  if (!ok) return V_ERR;
  if (w.misfit) return V_MAY;  // a member that does not fit its multi type
  if (w.i != n) return V_MAY;  // trailing bytes: either is accepted
  return V_OK;
}

inline std::string hex(const Bytes& b) {
  std::string o;
  char t[4];
  for (uint8_t x : b) {
    snprintf(t, sizeof t, "%02x", x);
    o += t;
  }
  return o;
}

// Heap copy of exactly n bytes so that the sanitizer sees any over-read.
struct Exact {
  uint8_t* p;
  size_t n;
  Exact(const void* d, size_t n_) : p(new uint8_t[n_ ? n_ : 1]), n(n_) {
    if (n) memcpy(p, d, n);
    if (!n) p_end_only();
  }
  void p_end_only() {}
  ~Exact() { delete[] p; }
  Exact(const Exact&) = delete;
};
// A zero length view must not be dereferenced at all: point one past the end of
// a one byte block for that case.
inline const uint8_t* exact_ptr(const Exact& e) { return e.n ? e.p : e.p + 1; }

// ------------------------------------------------------------------------ WKT

// What the Ryu build prints: the shortest decimal that reads back as the value,
// rounded half to even at the precision, without trailing zeros, zero unsigned.
inline std::string fmt_short(double d, int precision) {
  if (d != d) return "nan";
  char b[64];
  if (d > 1e17 || d < -1e17) {
    auto r = std::to_chars(b, b + sizeof b, d, std::chars_format::scientific);
    return std::string(b, r.ptr);
  }
  auto r = std::to_chars(b, b + sizeof b, fabs(d), std::chars_format::scientific);
  std::string t(b, r.ptr);
  size_t e = t.find('e');
  int x = atoi(t.c_str() + e + 1);
  std::string dig;
  for (size_t i = 0; i < e; i++)
    if (t[i] != '.') dig += t[i];
  // value = 0.dig * 10^(x + 1); keep `keep` digits
  int keep = x + 1 + precision;
  if (keep < 0) return "0";
  if (keep < (int)dig.size()) {
    bool up;
    std::string rest = dig.substr(keep);
    if (rest[0] != '5') up = rest[0] > '5';
    else if (rest.find_first_not_of('0', 1) != std::string::npos) up = true;
    else up = keep > 0 && ((dig[keep - 1] - '0') & 1);
    dig = dig.substr(0, keep);
    if (up) {
      int i = keep - 1;
      while (i >= 0 && dig[i] == '9') dig[i--] = '0';
      if (i >= 0) dig[i]++;
      else dig = "1" + dig, x++;
    }
  }
  while (!dig.empty() && dig.back() == '0') dig.pop_back();
  if (dig.empty()) return "0";
  std::string s;
  int ip = x + 1;  // digits before the point
  if (ip <= 0) s = "0." + std::string(-ip, '0') + dig;
  else if ((int)dig.size() <= ip) s = dig + std::string(ip - dig.size(), '0');
  else s = dig.substr(0, ip) + "." + dig.substr(ip);
  return (d < 0 ? "-" : "") + s;
}

// The text of an ordinate in the build under test.
inline std::string fmt_exact(double d, int precision) {
  char b[400];
  if (d != d) return "nan";
  if (d > 1e17 || d < -1e17) {
    snprintf(b, sizeof b, "%.16e", d);
    return b;
  }
  snprintf(b, sizeof b, "%.*f", precision, d);
  std::string s = b;
  if (s.find('.') != std::string::npos) {
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
  }
  return s;
}

inline std::string fmt_fixed(double d, int precision) {
#if GEOARROW_USE_RYU
  return fmt_short(d, precision);
#else
  return fmt_exact(d, precision);
#endif
}

static const char* const kTypeName[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON",
                                        "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
static const char* const kDimName[] = {"", "", " Z", " M", " ZM"};

struct WktOpts {
  int precision = 16;
  bool flat = true;
};

// The rendering the library documents: TYPE[ DIM] (..) with ", " separators.
inline std::string wkt_seq(const std::vector<C4>& c, int nd, const WktOpts& o) {
  std::string s;
  for (size_t i = 0; i < c.size(); i++) {
    if (i) s += ", ";
    for (int j = 0; j < nd; j++) s += (j ? " " : "") + fmt_fixed(c[i].v[j], o.precision);
  }
  return s;
}
inline std::string wkt_body(const Geom& g, const WktOpts& o);
inline std::string wkt(const Geom& g, const WktOpts& o) {
  return std::string(kTypeName[g.type]) + kDimName[g.dims] + " " + wkt_body(g, o);
}
inline std::string wkt_body(const Geom& g, const WktOpts& o) {
  int nd = kND[g.dims];
  std::string s;
  switch (g.type) {
    case T_POINT:
    case T_LINESTRING:
      if (g.coords.empty()) return "EMPTY";
      return "(" + wkt_seq(g.coords, nd, o) + ")";
    case T_POLYGON:
      if (g.rings.empty()) return "EMPTY";
      for (size_t i = 0; i < g.rings.size(); i++)
        s += (i ? ", " : "") + (g.rings[i].empty() ? std::string("EMPTY") : "(" + wkt_seq(g.rings[i], nd, o) + ")");
      return "(" + s + ")";
    default:
      if (g.parts.empty()) return "EMPTY";
      for (size_t i = 0; i < g.parts.size(); i++) {
        if (i) s += ", ";
        if (g.type == T_GC) s += wkt(g.parts[i], o);
        else if (g.type == T_MULTIPOINT && o.flat && !g.parts[i].coords.empty())
          s += wkt_seq(g.parts[i].coords, nd, o);
        else
          s += wkt_body(g.parts[i], o);
      }
      return "(" + s + ")";
  }
}

// Reference grammar.  Whitespace may separate any two tokens.
struct WktParser {
  const std::string& s;
  size_t i = 0;
  bool any = false;   // spelling met that a reader may accept or reject
  int depth = 0;
  bool stuck = false; // failed at a word that cannot be completed
  explicit WktParser(const std::string& t) : s(t) {}
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
  }
  bool lit(char c) {
    ws();
    if (i < s.size() && s[i] == c) {
      i++;
      return true;
    }
    return false;
  }
  std::string word() {
    ws();
    size_t j = i;
    std::string w;
    while (j < s.size() && isalpha((unsigned char)s[j])) w += s[j++];
    // a word ends at whitespace, a parenthesis, a comma or the end
    i = j;
    return w;
  }
  std::string peek_word() {
    size_t k = i;
    std::string w = word();
    i = k;
    return w;
  }
  bool sep() {  // at a token boundary
    return i >= s.size() || strchr(" \t\n\r(),", s[i]);
  }
  bool number(double& d) {
    ws();
    size_t j = i;
    std::string t;
    while (j < s.size() && !strchr(" \t\n\r(),", s[j])) t += s[j++];
    if (t.empty()) return false;
    // -?digits[.digits][e[+-]digits], nan, inf
    size_t k = 0;
    if (t[k] == '-') k++;
    std::string low;
    for (char c : t.substr(k)) low += (char)tolower(c);
    if (low == "nan" || low == "inf" || low == "infinity") {
      d = low == "nan" ? NAN : (k ? -INFINITY : INFINITY);
      i = j;
      return true;
    }
    size_t nd = 0;
    while (k < t.size() && isdigit((unsigned char)t[k])) k++, nd++;
    bool dot = false;
    size_t frac = 0;
    if (k < t.size() && t[k] == '.') {
      k++;
      dot = true;
      while (k < t.size() && isdigit((unsigned char)t[k])) k++, frac++;
    }
    if (nd + frac == 0) return bad_number(t);
    if (dot && (nd == 0 || frac == 0)) any = true;  // "1." and ".5": either
    if (k < t.size() && (t[k] == 'e' || t[k] == 'E')) {
      k++;
      if (k < t.size() && (t[k] == '-' || t[k] == '+')) k++;
      size_t ed = 0;
      while (k < t.size() && isdigit((unsigned char)t[k])) k++, ed++;
      if (!ed) return bad_number(t);
    }
    if (k != t.size()) return bad_number(t);
    if (t.size() >= 64) any = true;
    d = strtod(t.c_str(), nullptr);
    // overflow and underflow may be reported
    if (d - d != 0) any = true;
    if (fabs(d) < 2.3e-308)
      for (char c : t) {
        if (c == 'e' || c == 'E') break;
        if (c >= '1' && c <= '9') any = true;
      }
    i = j;
    return true;
  }
  bool bad_number(const std::string& t) {
    // spellings strtod knows and the grammar does not (hex, leading +): either
    if (t[0] == '+' || t.find('x') != std::string::npos || t.find('X') != std::string::npos) any = true;
    return false;
  }
  bool is_empty() {
    size_t k = i;
    if (word() == "EMPTY" && sep()) return true;
    i = k;
    return false;
  }
  bool coord(C4& c, int nd) {
    c = {{0, 0, 0, 0}};
    for (int j = 0; j < nd; j++)
      if (!number(c.v[j])) return false;
    return true;
  }
  bool seq(std::vector<C4>& out, int nd) {
    if (is_empty()) return true;
    if (!lit('(')) return false;
    do {
      C4 c;
      if (!coord(c, nd)) return false;
      out.push_back(c);
    } while (lit(','));
    return lit(')');
  }
  bool rings(std::vector<std::vector<C4>>& out, int nd) {
    if (is_empty()) return true;
    if (!lit('(')) return false;
    do {
      out.emplace_back();
      if (!seq(out.back(), nd)) return false;
    } while (lit(','));
    return lit(')');
  }
  bool body(Geom& g) {
    int nd = kND[g.dims];
    switch (g.type) {
      case T_POINT: {
        if (is_empty()) return true;
        if (!lit('(')) return false;
        C4 c;
        if (!coord(c, nd)) return false;
        g.coords.push_back(c);
        return lit(')');
      }
      case T_LINESTRING:
        return seq(g.coords, nd);
      case T_POLYGON:
        return rings(g.rings, nd);
      case T_MULTIPOINT:
        if (is_empty()) return true;
        if (!lit('(')) return false;
        {
          int flat = -1;
          do {
            Geom p;
            p.type = T_POINT;
            p.dims = g.dims;
            ws();
            if (i < s.size() && s[i] == '(') {
              if (flat == 1) any = true;  // mixed spelling
              if (flat == -1) flat = 0;
              if (!body(p)) return false;
            } else if (peek_word() == "EMPTY") {
              if (!is_empty()) return false;
            } else {
              if (flat == 0) any = true;
              if (flat == -1) flat = 1;
              C4 c;
              if (!coord(c, nd)) return false;
              p.coords.push_back(c);
            }
            g.parts.push_back(p);
          } while (lit(','));
        }
        return lit(')');
      case T_MULTILINESTRING:
      case T_MULTIPOLYGON:
        if (is_empty()) return true;
        if (!lit('(')) return false;
        do {
          Geom p;
          p.type = g.type - 3;
          p.dims = g.dims;
          if (!body(p)) return false;
          g.parts.push_back(p);
        } while (lit(','));
        return lit(')');
      case T_GC:
        if (is_empty()) return true;
        if (!lit('(')) return false;
        do {
          Geom p;
          if (!tagged(p)) return false;
          if (p.dims != g.dims) any = true;
          g.parts.push_back(p);
        } while (lit(','));
        return lit(')');
    }
    return false;
  }
  static std::string up(std::string w) {
    for (char& c : w) c = (char)toupper((unsigned char)c);
    return w;
  }
  bool tagged(Geom& g) {
    if (++depth > 30) any = true;
    ws();
    size_t at = i;
    std::string w = word();
    g.type = 0;
    for (int t = 1; t <= 7; t++)
      if (w == kTypeName[t]) g.type = t;
      else if (up(w) == kTypeName[t]) g.type = t, any = true;  // other case
    if (!g.type || !sep()) {
      if (!w.empty() || i < s.size()) stuck = true;
      i = at;
      return false;
    }
    g.dims = D_XY;
    std::string d = peek_word();
    if (d == "Z" || d == "M" || d == "ZM") {
      word();
      if (!sep()) return false;
      g.dims = d == "Z" ? D_XYZ : d == "M" ? D_XYM : D_XYZM;
    }
    bool r = body(g);
    depth--;
    return r;
  }
};

inline Verdict parse_wkt(const std::string& s, Geom& out) {
  WktParser p(s);
  bool ok = p.tagged(out);
  if (ok) {
    p.ws();
    if (p.i != s.size()) ok = false;
  }
  if (p.any) return ok ? V_MAY : V_ANY;
  return ok ? V_OK : V_ERR;
}
// The text is not the beginning of any WKT made by appending further tokens.
inline bool wkt_dead(const std::string& s) {
  WktParser p(s);
  Geom g;
  if (p.tagged(g)) {
    p.ws();
    return p.i != s.size();
  }
  p.ws();
  return p.stuck || p.i != s.size();
}

// --------------------------------------------------------------- native arrays

inline bool is_native(int type) { return type < 100000; }
inline int type_of(int geometry_type, int dims, bool interleaved) {
  return geometry_type + (dims - 1) * 1000 + (interleaved ? 10000 : 0);
}
struct NType {
  int geometry_type, dims;
  bool interleaved;
  int type() const { return type_of(geometry_type, dims, interleaved); }
};
inline int n_offsets(int gt) {
  static const int k[] = {-1, 0, 1, 2, 1, 2, 3};
  return gt == T_BOX ? 0 : k[gt];
}

// Hand-rolled array (own allocation, exactly sized buffers).
struct Arr {
  ArrowArray a;
  std::vector<uint8_t*> bufs;
  std::vector<const void*> ptrs;
  std::vector<Arr*> kids;
  std::vector<ArrowArray*> kptrs;
  static inline long live = 0;
};
inline void arr_release(ArrowArray* a) {
  Arr* x = (Arr*)a->private_data;
  for (size_t i = 0; i < x->kids.size(); i++)
    if (x->kids[i]->a.release) x->kids[i]->a.release(&x->kids[i]->a);
  for (auto* k : x->kids) delete k;
  x->kids.clear();
  for (auto* b : x->bufs) delete[] b;
  x->bufs.clear();
  a->release = nullptr;
  Arr::live--;
}
inline Arr* arr_new(int64_t len, int64_t off) {
  Arr* x = new Arr();
  memset(&x->a, 0, sizeof x->a);
  x->a.length = len;
  x->a.offset = off;
  x->a.private_data = x;
  x->a.release = arr_release;
  Arr::live++;
  return x;
}
inline void arr_buf(Arr* x, const void* d, size_t n, bool null_ptr = false) {
  if (null_ptr) {
    x->bufs.push_back(nullptr);
    x->ptrs.push_back(nullptr);
  } else {
    uint8_t* p = new uint8_t[n ? n : 1];
    if (n) memcpy(p, d, n);
    x->bufs.push_back(p);
    x->ptrs.push_back(p);
  }
  x->a.n_buffers = (int64_t)x->ptrs.size();
  x->a.buffers = x->ptrs.data();
}
inline void arr_kid(Arr* x, Arr* k) {
  x->kids.push_back(k);
  x->kptrs.clear();
  for (auto* y : x->kids) x->kptrs.push_back(&y->a);
  x->a.n_children = (int64_t)x->kptrs.size();
  x->a.children = x->kptrs.data();
}

struct Nest {
  std::vector<Nest> kids;
  C4 c = {{0, 0, 0, 0}};
};

struct NatOpts {
  int off[5] = {0, 0, 0, 0, 0};   // array offset at each nesting level (last used: the ordinate arrays)
  int lead[4] = {0, 0, 0, 0};     // elements skipped by the first list offset of each level
  bool validity = false;          // force a bitmap even without nulls
  bool trail = false;             // unreferenced elements at the end of each level
  bool null_content = false;      // nulls carry non-empty content
  int ord[4] = {0, 0, 0, 0};      // additional offsets of each ordinate array (separated)
  int null_count = -2;            // -2: exact; otherwise this value (-1 = unknown)
};

inline Nest nest_of_seq(const std::vector<C4>& s) {
  Nest n;
  for (auto& c : s) {
    Nest k;
    k.c = c;
    n.kids.push_back(k);
  }
  return n;
}
inline Nest nest_of(const Geom& g) {
  Nest n;
  switch (g.type) {
    case T_POINT:
    case T_BOX:
      if (g.coords.empty()) n.c = {{NAN, NAN, NAN, NAN}};
      else n.c = g.coords[0];
      return n;
    case T_LINESTRING:
      return nest_of_seq(g.coords);
    case T_POLYGON:
      for (auto& r : g.rings) n.kids.push_back(nest_of_seq(r));
      return n;
    default:
      for (auto& p : g.parts) n.kids.push_back(nest_of(p));
      return n;
  }
}
inline Nest garbage(int depth) {
  Nest n;
  n.c = {{-9001, -9002, -9003, -9004}};
  if (depth > 0) n.kids.push_back(garbage(depth - 1));
  return n;
}

inline Arr* build_level(const NType& t, int level, int depth_left, const std::vector<Nest>& elems, const NatOpts& o,
                        const std::vector<bool>* valid) {
  std::vector<Nest> phys;
  int off = o.off[level];
  for (int i = 0; i < off; i++) phys.push_back(garbage(depth_left));
  for (auto& e : elems) phys.push_back(e);
  int trail = o.trail ? 1 : 0;
  for (int i = 0; i < trail; i++) phys.push_back(garbage(depth_left));
  // trailing elements are beyond the array's length at the root, inside it below
  int64_t len = (int64_t)elems.size() + (level > 0 ? trail : 0);
  Arr* a = arr_new(len, off);
  // validity
  if (level == 0 && valid) {
    int64_t nulls = 0;
    Bytes bm((phys.size() + 7) / 8, 0);
    for (size_t i = 0; i < phys.size(); i++) {
      bool v = (int)i < off ? (i & 1) : (i - off < valid->size() ? (*valid)[i - off] : true);
      if (v) bm[i / 8] |= (uint8_t)(1 << (i % 8));
    }
    for (size_t i = 0; i < valid->size(); i++) nulls += !(*valid)[i];
    arr_buf(a, bm.data(), bm.size());
    a->a.null_count = o.null_count == -2 ? nulls : o.null_count;
  } else {
    arr_buf(a, nullptr, 0, true);
  }
  if (depth_left > 0) {
    std::vector<int32_t> offs;
    std::vector<Nest> kids;
    for (int i = 0; i < o.lead[level]; i++) kids.push_back(garbage(depth_left - 1));
    offs.push_back((int32_t)kids.size());
    for (auto& p : phys) {
      for (auto& k : p.kids) kids.push_back(k);
      offs.push_back((int32_t)kids.size());
    }
    arr_buf(a, offs.data(), offs.size() * 4);
    arr_kid(a, build_level(t, level + 1, depth_left - 1, kids, o, nullptr));
    return a;
  }
  int nd = kND[t.dims];
  if (t.geometry_type == T_BOX) nd *= 2;
  int ko = o.off[level + 1];
  if (t.interleaved) {
    std::vector<double> d;
    for (int i = 0; i < ko; i++) d.push_back(-9900 - i);
    for (auto& p : phys)
      for (int j = 0; j < nd; j++) d.push_back(p.c.v[j]);
    Arr* k = arr_new((int64_t)phys.size() * nd, ko);
    arr_buf(k, nullptr, 0, true);
    arr_buf(k, d.data(), d.size() * 8);
    arr_kid(a, k);
  } else {
    for (int j = 0; j < nd; j++) {
      std::vector<double> d;
      int kj = ko + o.ord[j & 3];
      for (int i = 0; i < kj; i++) d.push_back(-9900 - i);
      for (auto& p : phys) d.push_back(p.c.v[j & 3]);
      Arr* k = arr_new((int64_t)phys.size(), kj);
      arr_buf(k, nullptr, 0, true);
      arr_buf(k, d.data(), d.size() * 8);
      arr_kid(a, k);
    }
  }
  return a;
}

// Owner of a hand-made or library-made ArrowArray.
struct Owned {
  ArrowArray a;
  Owned() { memset(&a, 0, sizeof a); }
  ~Owned() { reset(); }
  Owned(const Owned&) = delete;
  void reset() {
    if (a.release) a.release(&a);
    if (hand) {
      delete hand;
      hand = nullptr;
    }
  }
  Arr* hand = nullptr;
};
struct OwnedSchema {
  ArrowSchema s;
  OwnedSchema() { memset(&s, 0, sizeof s); }
  ~OwnedSchema() {
    if (s.release) s.release(&s);
  }
  OwnedSchema(const OwnedSchema&) = delete;
};

inline void build_native(const NType& t, const std::vector<Feat>& fs, const NatOpts& o, Owned& out) {
  std::vector<Nest> el;
  std::vector<bool> valid;
  bool any_null = false;
  int depth = n_offsets(t.geometry_type);
  for (auto& f : fs) {
    valid.push_back(!f.null);
    any_null = any_null || f.null;
    if (f.null) el.push_back(o.null_content ? garbage(depth) : [&] {
      Nest n;
      n.c = {{NAN, NAN, NAN, NAN}};
      return n;
    }());
    else el.push_back(nest_of(f.g));
  }
  Arr* a = build_level(t, 0, depth, el, o, (any_null || o.validity) ? &valid : nullptr);
  out.hand = a;
  out.a = a->a;  // shallow: release goes through private_data
}

// Serialized arrays (binary / string), 32-bit offsets.
inline void build_serialized(const std::vector<std::string>& vals, const std::vector<bool>& valid, const NatOpts& o,
                             Owned& out, bool large = false) {
  int off = o.off[0];
  std::vector<std::string> phys;
  for (int i = 0; i < off; i++) phys.push_back("xy");
  for (auto& s : vals) phys.push_back(s);
  if (o.trail) phys.push_back("zz");
  Arr* a = arr_new((int64_t)vals.size(), off);
  bool any_null = o.validity;
  for (bool v : valid) any_null = any_null || !v;
  if (any_null) {
    Bytes bm((phys.size() + 7) / 8, 0);
    int64_t nulls = 0;
    for (size_t i = 0; i < phys.size(); i++) {
      bool v = (int)i < off ? (i & 1) : (i - off < valid.size() ? (bool)valid[i - off] : true);
      if (v) bm[i / 8] |= (uint8_t)(1 << (i % 8));
    }
    for (bool v : valid) nulls += !v;
    arr_buf(a, bm.data(), bm.size());
    a->a.null_count = o.null_count == -2 ? nulls : o.null_count;
  } else
    arr_buf(a, nullptr, 0, true);
  std::string data(o.lead[0], '#');
  std::vector<int32_t> offs;
  std::vector<int64_t> offl;
  offs.push_back((int32_t)data.size());
  offl.push_back((int64_t)data.size());
  for (auto& s : phys) {
    data += s;
    offs.push_back((int32_t)data.size());
    offl.push_back((int64_t)data.size());
  }
  if (large) arr_buf(a, offl.data(), offl.size() * 8);
  else arr_buf(a, offs.data(), offs.size() * 4);
  arr_buf(a, data.data(), data.size());
  out.hand = a;
  out.a = a->a;
}

// ---- decoding and validating arrays made by the library

struct Invalid {
  std::string why;
};
#define VF_VALID(cond, ...)                            \
  do {                                                 \
    if (!(cond)) throw ref::Invalid{vf::fmt(__VA_ARGS__)}; \
  } while (0)

inline bool bit(const void* bm, int64_t i) { return (((const uint8_t*)bm)[i / 8] >> (i % 8)) & 1; }

struct DecArr {
  const ArrowArray* a;
};

inline void valid_common(const ArrowArray* a, int64_t n_buffers, int64_t n_children) {
  VF_VALID(a->release != nullptr, "released array");
  VF_VALID(a->n_buffers == n_buffers, "%ld buffers instead of %ld", (long)a->n_buffers, (long)n_buffers);
  VF_VALID(a->n_children == n_children, "%ld children instead of %ld", (long)a->n_children, (long)n_children);
  VF_VALID(a->length >= 0 && a->offset >= 0, "negative length or offset");
  VF_VALID(a->null_count >= -1 && a->null_count <= a->length, "null count %ld of %ld rows", (long)a->null_count, (long)a->length);
  if (a->buffers[0] == nullptr) VF_VALID(a->null_count <= 0, "null count without a bitmap");
  if (a->buffers[0] != nullptr) {
    int64_t n = 0;
    for (int64_t i = 0; i < a->length; i++) n += !bit(a->buffers[0], a->offset + i);
    VF_VALID(a->null_count == -1 || a->null_count == n, "null count %ld but %ld nulls in the bitmap", (long)a->null_count, (long)n);
  }
}

inline std::vector<Nest> dec_level(const NType& t, const ArrowArray* a, int depth_left, int64_t from, int64_t n, bool root) {
  if (!root) VF_VALID(a->null_count == 0 || a->buffers[0] == nullptr || a->null_count == -1, "nulls below the root");
  VF_VALID(from + n <= a->length, "child has %ld elements but %ld are referenced", (long)a->length, (long)(from + n));
  std::vector<Nest> out((size_t)n);
  if (depth_left > 0) {
    valid_common(a, 2, 1);
    const int32_t* o = (const int32_t*)a->buffers[1];
    VF_VALID(a->length == 0 || o != nullptr, "no offsets buffer");
    if (n == 0) return out;
    o += a->offset + from;
    VF_VALID(o[0] >= 0, "negative first offset");
    for (int64_t i = 0; i < n; i++) VF_VALID(o[i + 1] >= o[i], "offsets decrease (%d then %d)", o[i], o[i + 1]);
    auto kids = dec_level(t, a->children[0], depth_left - 1, o[0], o[n] - o[0], false);
    for (int64_t i = 0; i < n; i++)
      out[i].kids.assign(kids.begin() + (o[i] - o[0]), kids.begin() + (o[i + 1] - o[0]));
    return out;
  }
  int nd = kND[t.dims];
  if (t.geometry_type == T_BOX) nd *= 2;
  if (t.interleaved) {
    valid_common(a, 1, 1);
    const ArrowArray* k = a->children[0];
    valid_common(k, 2, 0);
    VF_VALID(k->length >= (a->offset + a->length) * nd, "interleaved child too short");
    const double* d = (const double*)k->buffers[1];
    VF_VALID(n == 0 || d, "no ordinates");
    for (int64_t i = 0; i < n; i++)
      for (int j = 0; j < nd; j++) out[i].c.v[j] = d[k->offset + (a->offset + from + i) * nd + j];
  } else {
    valid_common(a, 1, nd);
    for (int j = 0; j < nd; j++) {
      const ArrowArray* k = a->children[j];
      valid_common(k, 2, 0);
      VF_VALID(k->length >= a->offset + a->length, "ordinate child too short");
      const double* d = (const double*)k->buffers[1];
      VF_VALID(n == 0 || d, "no ordinates");
      for (int64_t i = 0; i < n; i++) {
        double x = d[k->offset + a->offset + from + i];
        if (t.geometry_type == T_BOX) {
          if (j < 4) out[i].c.v[j] = x;
          else {
            if (out[i].kids.empty()) out[i].kids.resize(1);
            out[i].kids[0].c.v[j - 4] = x;
          }
        } else
          out[i].c.v[j] = x;
      }
    }
  }
  return out;
}

inline std::vector<C4> seq_from(const Nest& n) {
  std::vector<C4> r;
  for (auto& k : n.kids) r.push_back(k.c);
  return r;
}
inline Geom geom_from(const Nest& n, int gt, int dims) {
  Geom g = mk(gt, dims);
  switch (gt) {
    case T_POINT:
      g.coords.push_back(n.c);
      break;
    case T_LINESTRING:
      g.coords = seq_from(n);
      break;
    case T_POLYGON:
      for (auto& k : n.kids) g.rings.push_back(seq_from(k));
      break;
    default:
      for (auto& k : n.kids) g.parts.push_back(geom_from(k, gt - 3, dims));
  }
  return g;
}

// Decode a native (non-box) array; throws Invalid.
inline std::vector<Feat> decode_native(const NType& t, const ArrowArray* a) {
  auto el = dec_level(t, a, n_offsets(t.geometry_type), 0, a->length, true);
  std::vector<Feat> r;
  for (int64_t i = 0; i < a->length; i++) {
    Feat f;
    f.null = a->buffers[0] && !bit(a->buffers[0], a->offset + i);
    if (!f.null) f.g = canon(geom_from(el[i], t.geometry_type, t.dims));
    r.push_back(f);
  }
  return r;
}
// Boxes: min then max ordinates, as two coordinates of a pseudo geometry.
struct BoxVal {
  bool null;
  double v[8];
};
inline std::vector<BoxVal> decode_box(int dims, const ArrowArray* a) {
  NType t{T_BOX, dims, false};
  auto el = dec_level(t, a, 0, 0, a->length, true);
  std::vector<BoxVal> r;
  for (int64_t i = 0; i < a->length; i++) {
    BoxVal b;
    b.null = a->buffers[0] && !bit(a->buffers[0], a->offset + i);
    for (int j = 0; j < 4; j++) b.v[j] = el[i].c.v[j];
    for (int j = 0; j < 4; j++) b.v[4 + j] = el[i].kids.empty() ? 0 : el[i].kids[0].c.v[j];
    r.push_back(b);
  }
  return r;
}
// Binary / string arrays with 32-bit offsets.
struct Bin {
  bool null;
  std::string s;
};
inline std::vector<Bin> decode_serialized(const ArrowArray* a) {
  valid_common(a, 3, 0);
  const int32_t* o = (const int32_t*)a->buffers[1];
  std::vector<Bin> r;
  VF_VALID(a->length == 0 || o, "no offsets buffer");
  if (a->length == 0) return r;
  o += a->offset;
  VF_VALID(o[0] >= 0, "negative first offset");
  for (int64_t i = 0; i < a->length; i++) {
    VF_VALID(o[i + 1] >= o[i], "offsets decrease");
    Bin b;
    b.null = a->buffers[0] && !bit(a->buffers[0], a->offset + i);
    VF_VALID(o[i + 1] == o[i] || a->buffers[2], "no data buffer");
    if (o[i + 1] > o[i]) b.s.assign((const char*)a->buffers[2] + o[i], (size_t)(o[i + 1] - o[i]));
    r.push_back(b);
  }
  return r;
}

// Map a geometry onto other dimensions: missing ordinates NaN, surplus dropped.
inline C4 remap(const C4& c, int sd, int dd) {
  double z = NAN, m = NAN;
  if (sd == D_XYZ) z = c.v[2];
  if (sd == D_XYM) m = c.v[2];
  if (sd == D_XYZM) z = c.v[2], m = c.v[3];
  C4 o = {{c.v[0], c.v[1], 0, 0}};
  if (dd == D_XYZ) o.v[2] = z;
  if (dd == D_XYM) o.v[2] = m;
  if (dd == D_XYZM) o.v[2] = z, o.v[3] = m;
  return o;
}
inline Geom remap(const Geom& g, int dd) {
  Geom r = mk(g.type, dd);
  for (auto& c : g.coords) r.coords.push_back(remap(c, g.dims, dd));
  for (auto& x : g.rings) {
    r.rings.emplace_back();
    for (auto& c : x) r.rings.back().push_back(remap(c, g.dims, dd));
  }
  for (auto& p : g.parts) r.parts.push_back(remap(p, dd));
  return r;
}

}  // namespace ref
