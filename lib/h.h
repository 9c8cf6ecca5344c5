// Thin RAII wrappers over the public API, shared by the harnesses.
#pragma once
#include "ref.h"

namespace h {
using namespace ref;
using vf::choose;
using vf::fail;
using vf::flip;
using vf::fmt;
using vf::note;
using vf::op;

struct WkbReader {
  GeoArrowWKBReader r;
  bool ok;
  WkbReader() { ok = GeoArrowWKBReaderInit(&r) == 0; op(); }
  ~WkbReader() {
    if (ok) GeoArrowWKBReaderReset(&r);
  }
  WkbReader(const WkbReader&) = delete;
};
struct WktReader {
  GeoArrowWKTReader r;
  bool ok;
  WktReader() { ok = GeoArrowWKTReaderInit(&r) == 0; op(); }
  ~WktReader() {
    if (ok) GeoArrowWKTReaderReset(&r);
  }
  WktReader(const WktReader&) = delete;
};
struct WkbWriter {
  GeoArrowWKBWriter w;
  bool ok;
  WkbWriter() { ok = GeoArrowWKBWriterInit(&w) == 0; op(); }
  ~WkbWriter() {
    if (ok) GeoArrowWKBWriterReset(&w);
  }
  WkbWriter(const WkbWriter&) = delete;
};
struct WktWriter {
  GeoArrowWKTWriter w;
  bool ok;
  WktWriter() { ok = GeoArrowWKTWriterInit(&w) == 0; op(); }
  ~WktWriter() {
    if (ok) GeoArrowWKTWriterReset(&w);
  }
  WktWriter(const WktWriter&) = delete;
};
struct NatWriter {
  GeoArrowNativeWriter w;
  int rc;
  explicit NatWriter(int type) { rc = GeoArrowNativeWriterInit(&w, (GeoArrowType)type); op(); }
  ~NatWriter() {
    if (!rc) GeoArrowNativeWriterReset(&w);
  }
  NatWriter(const NatWriter&) = delete;
};
struct ArrWriter {
  GeoArrowArrayWriter w;
  int rc;
  explicit ArrWriter(int type) { rc = GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)type); op(); }
  ~ArrWriter() {
    if (!rc) GeoArrowArrayWriterReset(&w);
  }
  ArrWriter(const ArrWriter&) = delete;
};
struct ArrReader {
  GeoArrowArrayReader r;
  int rc;
  explicit ArrReader(int type) { rc = GeoArrowArrayReaderInitFromType(&r, (GeoArrowType)type); op(); }
  ~ArrReader() {
    if (!rc) GeoArrowArrayReaderReset(&r);
  }
  ArrReader(const ArrReader&) = delete;
};
struct Geometry {
  GeoArrowGeometry g;
  bool ok;
  Geometry() { ok = GeoArrowGeometryInit(&g) == 0; op(); }
  ~Geometry() {
    if (ok) GeoArrowGeometryReset(&g);
  }
  Geometry(const Geometry&) = delete;
};

// Node lists for a geometry, owning exactly sized coordinate storage.
struct Nodes {
  std::vector<GeoArrowGeometryNode> n;
  std::vector<double*> store;
  static const uint8_t* nanptr() {
    static double q[4] = {NAN, NAN, NAN, NAN};
    return (const uint8_t*)q;
  }
  enum Mode { INTERLEAVED, SEPARATE, PADDED, REVERSED, MIXED, UNALIGNED, N_MODES };
  ~Nodes() {
    for (auto* p : store) delete[] p;
  }
  Nodes() {}
  Nodes(const Nodes&) = delete;
  static double sw(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    u = __builtin_bswap64(u);
    memcpy(&d, &u, 8);
    return d;
  }
  void seq(int type, int dims, int level, const std::vector<C4>& c, Mode m, bool swap) {
    GeoArrowGeometryNode x;
    memset(&x, 0, sizeof x);
    x.geometry_type = (uint8_t)type;
    x.dimensions = (uint8_t)dims;
    x.level = (uint8_t)level;
    x.size = (uint32_t)c.size();
    if (swap) x.flags = GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
    for (int j = 0; j < 4; j++) {
      x.coords[j] = nanptr();
      x.coord_stride[j] = 0;
    }
    int nd = kND[dims];
    size_t cnt = c.size();
    size_t step = m == PADDED ? (size_t)nd + 2 : (size_t)nd;
    if (cnt && (m == MIXED || m == UNALIGNED)) {
      // MIXED: every ordinate has its own stride (the second one goes backwards);
      // UNALIGNED: interleaved at an odd address
      double* d = new double[m == MIXED ? cnt * 10 : cnt * nd + 1];
      store.push_back(d);
      uint8_t* p = (uint8_t*)d;
      if (m == UNALIGNED) p += 3;
      for (int j = 0; j < nd; j++) {
        int64_t st = m == MIXED ? 8 * (1 + j) * (j == 1 ? -1 : 1) : 8 * nd;
        static const int at[] = {0, 1, 3, 6};
        uint8_t* first = m == MIXED ? p + 8 * cnt * at[j] : p + 8 * j;
        if (st < 0) first -= st * (int64_t)(cnt - 1);
        for (size_t i = 0; i < cnt; i++) {
          double val = swap ? sw(c[i].v[j]) : c[i].v[j];
          memcpy(first + st * (int64_t)i, &val, 8);
        }
        x.coords[j] = first;
        x.coord_stride[j] = (int32_t)st;
      }
    } else if (cnt) {
      double* d = new double[cnt * step];
      for (size_t i = 0; i < cnt * step; i++) d[i] = -777;
      store.push_back(d);
      for (size_t i = 0; i < cnt; i++)
        for (int j = 0; j < nd; j++) {
          double val = swap ? sw(c[i].v[j]) : c[i].v[j];
          size_t at = m == SEPARATE ? j * cnt + i : m == REVERSED ? (cnt - 1 - i) * step + j : i * step + j;
          d[at] = val;
        }
      for (int j = 0; j < nd; j++) {
        if (m == SEPARATE) {
          x.coords[j] = (const uint8_t*)(d + j * cnt);
          x.coord_stride[j] = 8;
        } else if (m == REVERSED) {
          x.coords[j] = (const uint8_t*)(d + (cnt - 1) * step + j);
          x.coord_stride[j] = -(int32_t)(8 * step);
        } else {
          x.coords[j] = (const uint8_t*)(d + j);
          x.coord_stride[j] = (int32_t)(8 * step);
        }
      }
    }
    n.push_back(x);
  }
  void add(const Geom& g, Mode m = INTERLEAVED, bool swap = false, int level = 0) {
    switch (g.type) {
      case T_POINT:
      case T_LINESTRING:
        seq(g.type, g.dims, level, g.coords, m, swap);
        return;
      default: {
        GeoArrowGeometryNode x;
        memset(&x, 0, sizeof x);
        x.geometry_type = (uint8_t)g.type;
        x.dimensions = (uint8_t)g.dims;
        x.level = (uint8_t)level;
        if (swap) x.flags = GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
        for (int j = 0; j < 4; j++) x.coords[j] = nanptr();
        x.size = (uint32_t)(g.type == T_POLYGON ? g.rings.size() : g.parts.size());
        n.push_back(x);
        for (auto& r : g.rings) seq(T_LINESTRING, g.dims, level + 1, r, m, swap);
        for (auto& p : g.parts) add(p, m, swap, level + 1);
      }
    }
  }
  GeoArrowGeometryView view() const {
    GeoArrowGeometryView v;
    v.root = n.data();
    v.size_nodes = (int64_t)n.size();
    return v;
  }
};

// The nodes as the header documents them: depth first, levels, sizes, no NULL
// pointers, NaN behind the dimensions that do not exist.
inline void check_nodes(const Geom& g, const GeoArrowGeometryNode*& n, const GeoArrowGeometryNode* end, int level, const char* what) {
  auto seq = [&](int type, int dims, const std::vector<C4>& c, int lev) {
    if (n >= end) fail(fmt("%s:nodes", what), "too few nodes");
    if (n->geometry_type != type || n->dimensions != dims || (n->size != c.size() && !(type == T_POINT && n->size <= 1)) || n->level != lev)
      fail(fmt("%s:nodes", what), fmt("node type %d dims %d size %u level %d, expected %d %d %zu %d", n->geometry_type, n->dimensions, n->size,
                                       n->level, type, dims, c.size(), lev));
    for (int j = 0; j < 4; j++) {
      if (!n->coords[j]) fail(fmt("%s:nodes", what), "NULL coordinate pointer");
      if (j >= kND[dims] && n->size) {
        double d;
        memcpy(&d, n->coords[j] + (int64_t)(n->size - 1) * n->coord_stride[j], 8);
        if (d == d) fail(fmt("%s:nodes", what), fmt("dimension %d does not exist but is %g", j, d));
      }
    }
    n++;
  };
  if (g.type == T_POINT || g.type == T_LINESTRING) {
    seq(g.type, g.dims, g.coords, level);
    return;
  }
  if (n >= end) fail(fmt("%s:nodes", what), "too few nodes");
  size_t k = g.type == T_POLYGON ? g.rings.size() : g.parts.size();
  if (n->geometry_type != g.type || n->dimensions != g.dims || n->size != k || n->level != level)
    fail(fmt("%s:nodes", what), fmt("node type %d dims %d size %u level %d, expected %d %d %zu %d", n->geometry_type, n->dimensions, n->size, n->level,
                                     g.type, g.dims, k, level));
  n++;
  for (auto& r : g.rings) seq(T_LINESTRING, g.dims, r, level + 1);
  for (auto& p : g.parts) check_nodes(p, n, end, level + 1, what);
}

inline GeoArrowBufferView bv(const Exact& e) {
  GeoArrowBufferView v;
  v.data = exact_ptr(e);
  v.size_bytes = (int64_t)e.n;
  return v;
}
inline GeoArrowStringView sv(const Exact& e) {
  GeoArrowStringView v;
  v.data = (const char*)exact_ptr(e);
  v.size_bytes = (int64_t)e.n;
  return v;
}
inline GeoArrowStringView sv(const char* s) {
  GeoArrowStringView v;
  v.data = s;
  v.size_bytes = (int64_t)strlen(s);
  return v;
}

inline std::string quote(const std::string& s) {
  std::string o;
  for (unsigned char c : s)
    if (c >= 0x20 && c < 0x7f) o += (char)c;
    else o += fmt("\\x%02x", c);
  return "'" + o + "'";
}

}  // namespace h
