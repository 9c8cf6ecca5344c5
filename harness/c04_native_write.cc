// C04: geometries of any kind written to native arrays of any type.
#include "h.h"
using namespace h;

typedef std::vector<C4> Seq;
typedef std::vector<Seq> Group;

// The coordinate sequences of a geometry, in groups that belong together.
static void groups_of(const Geom& g, std::vector<Group>& out) {
  switch (g.type) {
    case T_POINT:
    case T_LINESTRING:
      if (!g.coords.empty()) out.push_back({g.coords});
      return;
    case T_MULTIPOINT: {
      Seq s;
      for (auto& p : g.parts)
        for (auto& c : p.coords) s.push_back(c);
      if (!s.empty()) out.push_back({s});
      return;
    }
    case T_POLYGON: {
      Group x;
      for (auto& r : g.rings)
        if (!r.empty()) x.push_back(r);
      if (!x.empty()) out.push_back(x);
      return;
    }
    case T_MULTILINESTRING: {
      Group x;
      for (auto& p : g.parts)
        if (!p.coords.empty()) x.push_back(p.coords);
      if (!x.empty()) out.push_back(x);
      return;
    }
    default:
      for (auto& p : g.parts) groups_of(p, out);
  }
}

// Without rings and members that have no coordinates.
static Geom dense(const Geom& g) {
  Geom r = mk(g.type, g.dims);
  r.coords = g.coords;
  for (auto& x : g.rings)
    if (!x.empty()) r.rings.push_back(x);
  for (auto& p : g.parts)
    if (count_coords(p)) r.parts.push_back(dense(p));
  return r;
}
static Geom from_seq(int type, int dims, const Seq& s) {
  Geom g = mk(type, dims);
  if (type == T_MULTIPOINT)
    for (auto& c : s) {
      Geom p = mk(T_POINT, dims);
      p.coords.push_back(c);
      g.parts.push_back(p);
    }
  else
    g.coords = s;
  return g;
}
static Geom from_group(int type, int dims, const Group& x) {
  Geom g = mk(type, dims);
  for (auto& s : x) {
    if (type == T_POLYGON) g.rings.push_back(s);
    else g.parts.push_back(from_seq(T_LINESTRING, dims, s));
  }
  return g;
}

// The only result that keeps every sequence and group; false if there is none.
static bool keep(const Geom& src, const NType& t, Geom& out) {
  std::vector<Group> gs;
  groups_of(remap(src, t.dims), gs);
  out = mk(t.geometry_type, t.dims);
  std::vector<Seq> all;
  for (auto& x : gs)
    for (auto& s : x) all.push_back(s);
  if (all.empty()) return true;
  switch (t.geometry_type) {
    case T_POINT:
      if (all.size() != 1 || all[0].size() != 1) return false;
      out.coords = all[0];
      return true;
    case T_LINESTRING:
    case T_MULTIPOINT:
      if (all.size() != 1) return false;
      out = from_seq(t.geometry_type, t.dims, all[0]);
      return true;
    case T_POLYGON:
      if (gs.size() != 1) return false;
      out = from_group(T_POLYGON, t.dims, gs[0]);
      return true;
    case T_MULTILINESTRING:
      out = from_group(T_MULTILINESTRING, t.dims, all);
      return true;
    default:
      for (auto& x : gs) out.parts.push_back(from_group(T_POLYGON, t.dims, x));
      return true;
  }
}

static bool promotes(int from, int to) { return from == to || (from <= T_POLYGON && to == from + 3); }
// The element that same-type writing and promotion give, with everything kept.
static Geom promoted(const Geom& src, const NType& t) {
  Geom g = remap(src, t.dims);
  if (g.type == t.geometry_type) return g;
  Geom m = mk(t.geometry_type, t.dims);
  if (count_coords(g)) m.parts.push_back(g);
  return m;
}

static void run(const Geom& src, const NType& t, int entry, const EmitOpts& eo, Nodes::Mode mode, bool swap, bool with_null) {
  NatWriter w(t.type());
  if (w.rc) fail("init", "native writer not initialised");
  GeoArrowError err;
  memset(&err, 0, sizeof err);
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  v.error = &err;
  if (GeoArrowNativeWriterInitVisitor(&w.w, &v)) fail("init", "visitor not initialised");
  v.error = &err;
  Values vals;
  vals.next = 5001;
  std::vector<Feat> want;
  auto put = [&](const Feat& f) -> int {
    op();
    if (entry == 0) {
      int rc = emit_feat(f, &v, eo);
      return rc;
    }
    if (f.null) return GeoArrowNativeWriterAppendNull(&w.w);
    Nodes n;
    n.add(f.g, mode, swap);
    return GeoArrowNativeWriterAppend(&w.w, n.view(), &err);
  };
  Feat a, b;
  a.g = shape(t.geometry_type, t.dims, t.geometry_type == T_POINT ? 1 : 2, vals);
  b.g = shape(t.geometry_type, t.dims, 1, vals);
  if (with_null) a.null = true;
  if (put(a)) fail("reject", "a geometry of the type of the array was rejected");
  want.push_back(canon(a));
  int rc = put(Feat{false, src});
  Geom k;
  bool can = keep(src, t, k);
  note("%s -> type %d entry %d: %d", str(src).c_str(), t.type(), entry, rc);
  if (rc == 0 && !can)
    fail("unrepresentable", str(src) + fmt(" was written to an array of type %d that cannot represent it", t.type()));
  if (rc != 0 && promotes(src.type, t.geometry_type))
    fail("reject", str(src) + fmt(" was rejected by an array of type %d: %d %s", t.type(), rc, err.message));
  if (put(b)) fail("reject-after", "a geometry of the type of the array was rejected after " + str(src));
  Owned out;
  if (GeoArrowNativeWriterFinish(&w.w, &out.a, &err)) fail("finish", std::string("finishing failed: ") + err.message);
  std::vector<Feat> got;
  try {
    got = decode_native(t, &out.a);
  } catch (Invalid& i) {
    fail("invalid", str(src) + fmt(" to type %d: the array is not valid: ", t.type()) + i.why);
  }
  size_t n = rc == 0 ? 3 : 2;
  if (got.size() != n) fail("rows", fmt("%zu rows instead of %zu", got.size(), n));
  if (!feq(got[0], want[0]) || !feq(got[n - 1], canon(Feat{false, b.g})))
    fail("neighbour", str(src) + fmt(" to type %d changed its neighbours: ", t.type()) + str(got));
  if (rc == 0) {
    if (got[1].null) fail("content", str(src) + " became null");
    bool exact = entry == 1 && promotes(src.type, t.geometry_type) && src.type != T_MULTIPOINT;
    Geom g1 = exact ? got[1].g : dense(got[1].g);
    Geom g2 = exact ? promoted(src, t) : dense(k);
    // any geometry without coordinates is an EMPTY of the target
    if (exact && count_coords(src) == 0) g1 = dense(g1), g2 = dense(g2);
    if (!geq(canon(g1), canon(g2)))
      fail("content", str(src) + fmt(" written to type %d (entry %d) became ", t.type(), entry) + str(got[1].g) + ", expected " + str(g2));
    vf::state(ref::hash(got[1].g));
  }
}

static NType pick_type(int dims_choices) {
  NType t;
  t.geometry_type = 1 + choose(6);
  int c = choose(dims_choices);
  t.dims = 1 + c % 4;
  t.interleaved = dims_choices == 8 ? c / 4 : (c + t.geometry_type) & 1;
  return t;
}

// shapes: deep trees, dimensions kept
static void sc_shapes() {
  GenOpts o;
  o.budget = vf::thorough() ? 6 : 5;
  o.max_depth = 3;
  o.dims_mask = 2;
  Geom g = gen_geom(o);
  NType t;
  t.geometry_type = 1 + choose(6);
  t.dims = 1;
  t.interleaved = flip();
  int entry = choose(2);
  EmitOpts eo;
  run(g, t, entry, eo, Nodes::INTERLEAVED, false, false);
}

// all combinations of dimensions and layouts, with every way to pass coordinates
static void sc_dims() {
  GenOpts o;
  o.budget = vf::thorough() ? 4 : 3;
  o.max_depth = 2;
  Geom g = gen_geom(o);
  NType t = pick_type(8);
  int how = choose(6);
  EmitOpts eo;
  eo.chunk = how == 1 ? 1 : 0;
  eo.interleaved = how != 2;
  eo.emit_empty_coords = how == 2;
  Nodes::Mode m = how == 3 ? Nodes::INTERLEAVED : how == 4 ? Nodes::SEPARATE : Nodes::REVERSED;
  run(g, t, how >= 3, eo, m, how == 5, how & 1);
}

// members whose dimensions differ from those of the collection
static void mix_dims(Geom& g, bool root) {
  if (!root) {
    g.dims = 1 + choose(vf::thorough() ? 4 : 3);
  }
  for (auto& p : g.parts) mix_dims(p, false);
}
static void sc_mixed_dims() {
  GenOpts o;
  o.budget = vf::thorough() ? 4 : 3;
  o.max_depth = 2;
  o.type_mask = 0xF0;
  if (!vf::thorough()) o.dims_mask = 0x12;  // XY, XYZM
  Geom g = gen_geom(o);
  mix_dims(g, true);
  NType t{4 + choose(3), 1, false};
  if (vf::thorough()) t = pick_type(4);
  else t.dims = flip() ? 4 : 1, t.interleaved = t.geometry_type == 5;
  run(g, t, choose(2), EmitOpts(), Nodes::INTERLEAVED, false, false);
}

static void sc_box() {
  int dims = 1 + choose(4);
  NType t{T_BOX, dims, false};
  NatWriter w(t.type());
  if (w.rc) return;
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  GeoArrowError err;
  v.error = &err;
  op();
  if (GeoArrowNativeWriterInitVisitor(&w.w, &v) == 0) fail("box", "a box array accepts visitors");
  Values vals;
  Feat f;
  f.g = shape(1 + choose(7), 1 + choose(4), choose(3), vals);
  Nodes n;
  n.add(f.g);
  if (GeoArrowNativeWriterAppend(&w.w, n.view(), &err) == 0 && count_coords(f.g)) fail("box", "a box array accepted " + str(f.g));
  Owned out;
  op();
  int rc = GeoArrowNativeWriterFinish(&w.w, &out.a, &err);
  if (rc == 0 && out.a.length != 0 && count_coords(f.g)) fail("box", "a rejected geometry became a row");
  vf::state(rc);
}

// more coordinates than 32-bit offsets can describe
static void sc_huge() {
  NType t = pick_type(8);
  static const uint32_t kS[] = {1, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0};
  int type = 2 + choose(6);
  int depth = type <= 2 ? 0 : type <= 5 || type == T_GC ? 1 : 2;
  if (type == T_MULTIPOINT) depth = 0;  // a MULTIPOINT of huge points is no geometry
  std::vector<GeoArrowGeometryNode> n;
  auto node = [&](int ty, uint32_t size) {
    GeoArrowGeometryNode x;
    memset(&x, 0, sizeof x);
    x.geometry_type = (uint8_t)ty;
    x.dimensions = 1;
    x.size = size;
    static double q[4] = {1, 2, NAN, NAN};
    for (int j = 0; j < 4; j++) x.coords[j] = (const uint8_t*)(q + j);
    n.push_back(x);
  };
  uint64_t total = 0;
  auto leaf = [&]() {
    uint32_t s = kS[choose(6)];
    total += s;
    node(T_LINESTRING, s);
  };
  vf::assume(type != T_MULTIPOINT);
  if (depth == 0) leaf();
  else if (depth == 1) {
    node(type, 3);
    for (int i = 0; i < 3; i++) leaf();
  } else {
    node(type, 2);
    for (int i = 0; i < 2; i++) {
      node(T_POLYGON, 2);
      leaf();
      leaf();
    }
  }
  vf::assume(total > 0x7fffffffu);
  GeoArrowGeometryView gv;
  gv.root = n.data();
  gv.size_nodes = (int64_t)n.size();
  NatWriter w(t.type());
  GeoArrowError err;
  op();
  int rc = GeoArrowNativeWriterAppend(&w.w, gv, &err);
  if (rc == 0) fail("huge", fmt("a geometry of type %d with %llu coordinates was accepted by type %d", type, (unsigned long long)total, t.type()));
  Feat b;
  Values vals;
  b.g = shape(t.geometry_type, t.dims, 1, vals);
  Nodes nn;
  nn.add(b.g);
  if (GeoArrowNativeWriterAppend(&w.w, nn.view(), &err)) fail("huge-after", "a small geometry was rejected afterwards");
  Owned out;
  if (GeoArrowNativeWriterFinish(&w.w, &out.a, &err)) fail("huge-after", "finishing failed");
  try {
    auto got = decode_native(t, &out.a);
    if (got.size() != 1 || !geq(got[0].g, canon(b.g))) fail("huge-after", "got " + str(got));
  } catch (Invalid& i) {
    fail("huge-after", "invalid array: " + i.why);
  }
  vf::state(vf::mix(total, rc));
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"shapes", sc_shapes, true, "all XY trees with up to 5 (6) members x 6 types x 2 layouts x 2 entry points"},
                    {"dims", sc_dims, true, "all trees with up to 3 (4) members and 4 dimensions x 48 types x 6 ways to pass coordinates"},
                    {"mixed_dims", sc_mixed_dims, true, "all multi/collection trees with up to 3 (4) members, each of 3 (4) dimensions x 6 (24) types x 2 entry points"},
                    {"huge", sc_huge, true, "48 types x all geometries of up to 4 sequences of 6 sizes exceeding 2^31-1 coordinates"},
                    {"box", sc_box, true, "4 box types x 7 types x 4 dimensions x 3 shapes"}});
}
