#include "../lib/h.h"
using namespace h;

static GenOpts gopts(int quick, int thorough_) {
  GenOpts go;
  go.budget = vf::thorough() ? thorough_ : quick;
  go.max_depth = 3;
  return go;
}

static void expect_view(GeoArrowGeometryView v, const Geom& g, const char* what, bool levels = true) {
  if (levels) {
    const GeoArrowGeometryNode* n = v.root;
    check_nodes(g, n, v.root + v.size_nodes, 0, what);
    if (n != v.root + v.size_nodes) fail(fmt("%s:nodes", what), "too many nodes");
  }
  if (GeoArrowGeometryViewNumCoords(v) != (uint32_t)count_coords(g)) fail(fmt("%s:numcoords", what), "wrong number of coordinates");
  Rec rec;
  op();
  int rc = GeoArrowGeometryViewVisit(v, &rec.v);
  op((uint64_t)rec.nev);
  rec.done();
  if (vf::tracing()) note("%s: visit rc=%d %s", what, rc, str(rec.feats).substr(0, 500).c_str());
  vf::state(vf::mix(rec.h, ref::hash(rec.feats)));
  vf::raise_deferred();
  if (rc) fail(fmt("%s:visit", what), fmt("visit failed (%d, %s) for %s", rc, rec.err.message, str(g).substr(0, 500).c_str()));
  if (rec.feats.size() != 1 || rec.feats[0].null || !geq(rec.feats[0].g, g))
    fail(fmt("%s:value", what), fmt("visited %s, expected %s", str(rec.feats).substr(0, 600).c_str(), str(g).substr(0, 600).c_str()));
}
static void expect_geom(const GeoArrowGeometry* o, const Geom& g, const char* what, bool levels = true) {
  expect_view(GeoArrowGeometryAsView(o), g, what, levels);
  Rec rec;
  op();
  int rc = GeoArrowGeometryVisit(o, &rec.v);
  vf::raise_deferred();
  if (rc || rec.feats.size() != 1 || rec.feats[0].null || !geq(rec.feats[0].g, g))
    fail(fmt("%s:value2", what), fmt("GeoArrowGeometryVisit: %d %s, expected %s", rc, str(rec.feats).substr(0, 600).c_str(), str(g).substr(0, 600).c_str()));
}

static void build(GeoArrowGeometry* o, const Feat& f, const EmitOpts& eo, const char* what) {
  GeoArrowVisitor v;
  GeoArrowError err;
  memset(&v, 0, sizeof v);
  v.error = &err;
  GeoArrowGeometryInitVisitor(o, &v);
  int rc = emit_feat(f, &v, eo);
  if (rc) fail(fmt("%s:build", what), fmt("building failed (%d, %s) for %s", rc, err.message, str(f).substr(0, 500).c_str()));
}

static void sc_build() {
  Geom g = gen_geom(gopts(5, 6));
  EmitOpts eo;
  eo.chunk = choose(3);  // all at once, one by one, two by two
  eo.interleaved = eo.chunk != 1;
  eo.emit_empty_coords = eo.chunk == 0;
  Geometry o;
  Feat f;
  f.g = g;
  if (flip()) {
    // the object was used before
    Values v;
    Feat p;
    p.g = shape(T_MULTIPOLYGON, D_XYZM, 2, v);
    build(&o.g, p, EmitOpts(), "build");
  }
  build(&o.g, f, eo, "build");
  expect_geom(&o.g, g, "build");
}

static void sc_copy() {
  GenOpts go = gopts(4, 5);
  Geom g = gen_geom(go);
  std::unique_ptr<Nodes> n(new Nodes());
  int mode = choose(Nodes::N_MODES);
  bool swap = flip();
  n->add(g, (Nodes::Mode)mode, swap);
  int kind = choose(3);
  if (kind == 0) {
    expect_view(n->view(), g, "view");
    return;
  }
  Geometry o;
  if (flip()) {
    Values v;
    Feat p;
    p.g = shape(T_GC, D_XYZM, 3, v);
    build(&o.g, p, EmitOpts(), "copy");
  }
  op();
  if (kind == 1) {
    if (GeoArrowGeometryShallowCopy(n->view(), &o.g)) fail("copy:shallow", "shallow copy failed");
    n->n.clear();
    n->n.shrink_to_fit();
    expect_geom(&o.g, g, "shallow");
    return;
  }
  if (GeoArrowGeometryDeepCopy(n->view(), &o.g)) fail("copy:deep", "deep copy failed");
  n.reset();
  expect_geom(&o.g, g, "deep");
  // a copy of the copy
  Geometry o2;
  op();
  if (GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&o.g), &o2.g)) fail("copy:deep2", "deep copy failed");
  GeoArrowGeometryReset(&o.g);
  o.ok = false;
  expect_geom(&o2.g, g, "deep-of-deep");
}

// operations on two objects in any order
static void sc_history() {
  static const int T[] = {T_POINT, T_POLYGON, T_GC, T_MULTIPOINT, T_LINESTRING};
  Values v;
  std::unique_ptr<Nodes> src(new Nodes());
  Geom sg = shape(T_MULTILINESTRING, D_XYM, 2, v);
  src->add(sg, Nodes::PADDED, true);
  bool live[2] = {false, false};
  struct Two {
    GeoArrowGeometry o[2];
    bool* live;
    ~Two() {
      for (int x = 0; x < 2; x++)
        if (live[x]) GeoArrowGeometryReset(&o[x]);
    }
  } two;
  two.live = live;
  auto& o = two.o;
  bool has[2] = {false, false};
  Geom val[2];
  int shallow_of[2] = {-1, -1};
  int len = vf::thorough() ? 5 : 4;
  for (int i = 0; i < len; i++) {
    int k = choose(2), b = 1 - k;
    if (!live[k]) {
      op();
      if (GeoArrowGeometryInit(&o[k])) fail("init", "init failed");
      live[k] = true;
      has[k] = false;
    }
    auto dies = [&](int x) {  // x's storage changes: shallow copies of it become invalid
      if (shallow_of[1 - x] == x) has[1 - x] = false, shallow_of[1 - x] = -1;
      shallow_of[x] = -1;
    };
    int a = choose(6);
    switch (a) {
      case 0: {
        Feat f;
        f.g = shape(T[choose(5)], 1 + (i + k) % 4, 1 + i % 2, v);
        dies(k);
        build(&o[k], f, EmitOpts(), "history");
        val[k] = f.g;
        has[k] = true;
        break;
      }
      case 1:
        dies(k);
        if (GeoArrowGeometryDeepCopy(src->view(), &o[k])) fail("history:deep", "deep copy failed");
        val[k] = sg;
        has[k] = true;
        break;
      case 2:
        vf::assume(live[b] && has[b]);
        dies(k);
        vf::assume(has[b]);
        if (GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&o[b]), &o[k])) fail("history:deep2", "deep copy failed");
        val[k] = val[b];
        has[k] = true;
        break;
      case 3:
        vf::assume(live[b] && has[b]);
        dies(k);
        vf::assume(has[b]);
        if (GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&o[b]), &o[k])) fail("history:shallow", "shallow copy failed");
        val[k] = val[b];
        has[k] = true;
        shallow_of[k] = b;
        break;
      case 4:
        dies(k);
        GeoArrowGeometryReset(&o[k]);
        live[k] = has[k] = false;
        break;
      case 5: {
        dies(k);
        Feat f;
        f.null = true;
        build(&o[k], f, EmitOpts(), "history");
        if (o[k].size_nodes != 1 || o[k].root[0].size != 0 || o[k].root[0].geometry_type != 0)
          fail("history:null", "a null feature is one empty node without a type");
        has[k] = false;
        break;
      }
    }
    for (int x = 0; x < 2; x++)
      if (live[x] && has[x]) expect_geom(&o[x], val[x], "history");
  }
}

// ---- node lists that are not exactly one tree
// 1 ok, 0 error, -1 unspecified
static int ref_tree(const std::vector<GeoArrowGeometryNode>& n, size_t& i, Geom& g) {
  if (i >= n.size()) return 0;
  const auto& x = n[i++];
  g.type = x.geometry_type;
  g.dims = x.dimensions;
  if (g.type < 1 || g.type > 7) return 0;
  bool any = g.dims < 1 || g.dims > 4;
  auto get = [&](const GeoArrowGeometryNode& y, std::vector<C4>& c) {
    if (y.dimensions < 1 || y.dimensions > 4) return false;
    for (uint32_t k = 0; k < y.size; k++) {
      C4 q = {{0, 0, 0, 0}};
      for (int j = 0; j < kND[y.dimensions]; j++) {
        memcpy(&q.v[j], y.coords[j] + (int64_t)k * y.coord_stride[j], 8);
        if (y.flags & 1) q.v[j] = Nodes::sw(q.v[j]);
      }
      c.push_back(q);
    }
    return true;
  };
  if (g.type <= 2) return !get(x, g.coords) ? 0 : g.type == T_POINT && x.size > 1 ? -1 : 1;
  if (g.type == T_POLYGON) {
    if (n.size() - i < x.size) return any ? -1 : 0;
    for (uint32_t k = 0; k < x.size; k++) {
      const auto& y = n[i++];
      if (y.geometry_type != T_LINESTRING || y.dimensions != x.dimensions) any = true;
      g.rings.emplace_back();
      if (!get(y, g.rings.back())) return y.geometry_type == T_LINESTRING && !any ? 0 : -1;
    }
    return any ? -1 : 1;
  }
  int r = any ? -1 : 1;
  for (uint32_t k = 0; k < x.size; k++) {
    g.parts.emplace_back();
    int q = ref_tree(n, i, g.parts.back());
    if (q == 0) return r == -1 ? -1 : 0;
    if (q == -1) r = -1;
    if (g.parts.back().dims != g.dims || (g.type != T_GC && g.parts.back().type != g.type - 3)) r = -1;
  }
  return r;
}

static void sc_badnodes() {
  GenOpts go = gopts(4, 5);
  go.dims_mask = vf::thorough() ? 0x1E : 0x14;
  Geom g = gen_geom(go);
  Nodes n;
  n.add(g, Nodes::INTERLEAVED, false);
  int kind = choose(5);
  size_t at = (size_t)choose((int)n.n.size());
  switch (kind) {
    case 0: {  // another number of children
      static const int64_t d[] = {-1, 1, 2, 0x7fffffff, 0xffffffffLL};
      if (n.n[at].geometry_type <= 2) vf::assume(false);
      int c = choose(5);
      if (c == 0 && n.n[at].size == 0) vf::assume(false);
      n.n[at].size = c < 3 ? (uint32_t)(n.n[at].size + d[c]) : (uint32_t)d[c];
      break;
    }
    case 1:
      n.n.erase(n.n.begin() + at);
      break;
    case 2:
      n.n.insert(n.n.begin() + at, GeoArrowGeometryNode(n.n[at]));
      break;
    case 3: {  // another type (sizes stay small)
      static const int t[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 255};
      int old = n.n[at].geometry_type;
      int nt = t[choose(10)];
      if (nt == old) vf::assume(false);
      n.n[at].geometry_type = (uint8_t)nt;
      break;
    }
    case 4: {
      static const int d[] = {0, 5, 6, 255};
      n.n[at].dimensions = (uint8_t)d[choose(4)];
      break;
    }
  }
  // exactly sized
  n.n.shrink_to_fit();
  std::unique_ptr<GeoArrowGeometryNode[]> ex(new GeoArrowGeometryNode[n.n.size() ? n.n.size() : 1]);
  for (size_t i = 0; i < n.n.size(); i++) ex[i] = n.n[i];
  GeoArrowGeometryView v;
  v.root = n.n.empty() ? ex.get() + 1 : ex.get();
  v.size_nodes = (int64_t)n.n.size();
  size_t i = 0;
  Geom e;
  int r = ref_tree(n.n, i, e);
  if (r == 1 && i != n.n.size()) r = 0;
  if (r == -1 && kind == 4) {
  }
  Rec rec;
  rec.check = false;
  rec.strict = false;
  op();
  int rc = GeoArrowGeometryViewVisit(v, &rec.v);
  if (vf::tracing()) note("%s kind %d at %zu: rc %d, expected %d", str(g).c_str(), kind, at, rc, r);
  vf::state(vf::mix((uint64_t)rc, rec.h));
  if (r == -1) return;
  if (r == 0 && rc == 0) fail("badnodes:accepted", fmt("node list of %zu nodes that is not one tree accepted as %s", n.n.size(), str(rec.feats).c_str()));
  if (r == 1 && (rc || rec.feats.size() != 1 || !geq(rec.feats[0].g, e)))
    fail("badnodes:value", fmt("rc %d %s expected %s", rc, str(rec.feats).c_str(), str(e).c_str()));
  if (r == 1) expect_view(v, e, "badnodes", false);
}

static void sc_long() {
  static const int ns[] = {1, 2, 3, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 288, 289, 383, 384, 385, 576, 577, 1000};
  int dims = 1 + choose(4);
  int n = ns[choose(23)];
  int kind = choose(3);
  Values v;
  Geom g = mk(kind == 0 ? T_LINESTRING : kind == 1 ? T_POLYGON : T_MULTIPOINT, dims);
  for (int i = 0; i < n; i++) {
    C4 c = v.c();
    if (kind == 0) g.coords.push_back(c);
    if (kind == 1) {
      if (i == 0) g.rings.resize(3);
      g.rings[0].push_back(c);
      if (i % 3 == 0) g.rings[1].push_back(c);
      if (i % 2 == 0) g.rings[2].push_back(c);
    }
    if (kind == 2) {
      g.parts.push_back(mk(T_POINT, dims));
      g.parts.back().coords.push_back(c);
    }
  }
  int how = choose(Nodes::N_MODES + 1);
  Nodes nn;
  Geometry o;
  if (how < Nodes::N_MODES) {
    bool swap = flip();
    nn.add(g, (Nodes::Mode)how, swap);
    expect_view(nn.view(), g, "long-view");
    if (GeoArrowGeometryDeepCopy(nn.view(), &o.g)) fail("long:deep", "deep copy failed");
    expect_geom(&o.g, g, "long-deep");
  } else {
    Feat f;
    f.g = g;
    EmitOpts eo;
    eo.chunk = choose(3) * 50;
    build(&o.g, f, eo, "long");
    expect_geom(&o.g, g, "long-build");
  }
}

static void sc_nesting() {
  int depth = choose(vf::thorough() ? 300 : 80);
  int leaf = choose(8);
  int dims = 1 + choose(4);
  Values v;
  Geom g = leaf == 0 ? mk(T_GC, dims) : shape(leaf, dims, leaf == T_GC ? 0 : 1, v);
  int inner = leaf == 0 || leaf == T_GC || leaf == T_POINT || leaf == T_LINESTRING ? 1 : leaf == T_MULTIPOLYGON ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    Geom p = mk(T_GC, dims);
    if (i % 3 == 1) p.parts.push_back(shape(T_POINT, dims, 1, v));
    p.parts.push_back(std::move(g));
    if (i % 3 == 2) p.parts.push_back(shape(T_LINESTRING, dims, 1, v));
    g = std::move(p);
  }
  int how = choose(2);
  Geometry o;
  if (how == 0) {
    GeoArrowVisitor vis;
    GeoArrowError err;
    memset(&vis, 0, sizeof vis);
    vis.error = &err;
    GeoArrowGeometryInitVisitor(&o.g, &vis);
    Feat f;
    f.g = g;
    int rc = emit_feat(f, &vis);
    note("depth %d leaf %d: rc %d", depth, leaf, rc);
    if (rc && depth + inner <= 31) fail("nesting:rejected", fmt("%d levels rejected: %s", depth + inner, err.message));
    if (!rc) expect_geom(&o.g, g, "nesting");
    else {
      // whatever was sent so far, the rest of the events do no harm
      vis.feat_end(&vis);
      Rec rec;
      rec.check = false;
      rec.strict = false;
      GeoArrowGeometryVisit(&o.g, &rec.v);
      Feat p;
      p.g = shape(T_POLYGON, dims, 2, v);
      build(&o.g, p, EmitOpts(), "nesting");
      expect_geom(&o.g, p.g, "nesting-reuse");
    }
  } else {
    Nodes n;
    n.add(g, Nodes::SEPARATE, false);
    if (depth + inner < 250) expect_view(n.view(), g, "nesting-view");
    if (GeoArrowGeometryDeepCopy(n.view(), &o.g)) fail("nesting:deep", "deep copy failed");
    if (depth + inner < 250) expect_geom(&o.g, g, "nesting-deep");
  }
}

// nodes set from buffers; coordinates copied into any layout and dimensions
static void sc_nodeset() {
  int dims = 1 + choose(4), nd = kND[dims];
  int n = choose(4);
  int type = 1 + choose(2);
  vf::assume(type == T_LINESTRING || n <= 1);
  bool inter = flip();
  bool swap = flip();
  Values v;
  Geom g = mk(type, dims);
  for (int i = 0; i < n; i++) g.coords.push_back(v.c());
  std::vector<double> d((size_t)n * nd);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < nd; j++) {
      double x = g.coords[i].v[j];
      d[inter ? i * nd + j : j * n + i] = swap ? Nodes::sw(x) : x;
    }
  Exact e(d.data(), d.size() * 8);
  Geometry o;
  GeoArrowGeometryNode* node = nullptr;
  op(2);
  if (GeoArrowGeometryResizeNodes(&o.g, 0) || GeoArrowGeometryAppendNode(&o.g, &node)) fail("nodeset:append", "appending a node failed");
  for (int j = 0; j < 4; j++) {
    double x;
    memcpy(&x, node->coords[j], 8);
    if (x == x || node->size || node->geometry_type || node->level || node->flags) fail("nodeset:fresh", "an appended node is not initialised");
  }
  if (inter) GeoArrowGeometryNodeSetInterleaved(node, (GeoArrowGeometryType)type, (GeoArrowDimensions)dims, bv(e));
  else GeoArrowGeometryNodeSetSeparated(node, (GeoArrowGeometryType)type, (GeoArrowDimensions)dims, bv(e));
  if (swap) node->flags |= GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
  expect_geom(&o.g, g, "nodeset");
  // WriteSequence never writes beyond the given size
  int64_t need = (int64_t)n * nd * 8;
  for (int64_t cap = 0; cap <= need + 8; cap += 8) {
    std::unique_ptr<uint8_t[]> out(new uint8_t[cap ? cap : 1]);
    op();
    int64_t w = GeoArrowGeometryNodeWriteSequence(node, out.get(), cap);
    if (w != need) fail("nodeset:write", fmt("%ld bytes reported, %ld needed", (long)w, (long)need));
    if (cap >= need)
      for (int i = 0; i < n * nd; i++) {
        double x;
        memcpy(&x, out.get() + 8 * i, 8);
        if (!deq(x, g.coords[i / nd].v[i % nd])) fail("nodeset:write-value", "wrong ordinate written");
      }
  }
  // coordinates into other dimensions
  int od = 1 + choose(4), ond = kND[od];
  bool ointer = flip();
  std::unique_ptr<uint8_t[]> out(new uint8_t[(size_t)n * ond * 8 + 1]);
  uint8_t* outs[4];
  int32_t strides[4];
  for (int j = 0; j < ond; j++) {
    outs[j] = out.get() + (ointer ? 8 * j : 8 * j * n);
    strides[j] = ointer ? 8 * ond : 8;
  }
  op();
  GeoArrowGeometryViewCopyCoordsGeneric(GeoArrowGeometryAsView(&o.g), outs, strides, (GeoArrowDimensions)od);
  for (int i = 0; i < n; i++) {
    C4 e4 = remap(g.coords[i], dims, od);
    for (int j = 0; j < ond; j++) {
      double x;
      memcpy(&x, out.get() + (ointer ? 8 * (i * ond + j) : 8 * (j * n + i)), 8);
      if (!deq(x, e4.v[j])) fail("nodeset:copy-generic", fmt("ordinate %d of %d->%d dimensions is %g, expected %g", j, dims, od, x, e4.v[j]));
    }
  }
}

// several sequences into one output
static void sc_copyall() {
  GenOpts go = gopts(4, 5);
  Geom g = gen_geom(go);
  int mode = choose(Nodes::N_MODES);
  bool swap = flip();
  Nodes nn;
  nn.add(g, (Nodes::Mode)mode, swap);
  int od = 1 + choose(4), ond = kND[od];
  bool ointer = flip();
  int n = count_coords(g);
  std::unique_ptr<uint8_t[]> out(new uint8_t[(size_t)n * ond * 8 + 1]);
  uint8_t* outs[4];
  int32_t strides[4];
  for (int j = 0; j < ond; j++) {
    outs[j] = out.get() + (ointer ? 8 * j : 8 * j * n);
    strides[j] = ointer ? 8 * ond : 8;
  }
  op();
  GeoArrowGeometryViewCopyCoordsGeneric(nn.view(), outs, strides, (GeoArrowDimensions)od);
  int i = 0;
  each_coord(g, [&](C4& c) {
    C4 e4 = remap(c, g.dims, od);
    for (int j = 0; j < ond; j++) {
      double x;
      memcpy(&x, out.get() + (ointer ? 8 * (i * ond + j) : 8 * (j * n + i)), 8);
      if (!deq(x, e4.v[j])) fail("copyall", fmt("ordinate %d of coordinate %d is %g, expected %g", j, i, x, e4.v[j]));
    }
    i++;
  });
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"build", sc_build, true, "trees with <=5 (thorough 6) members, depth<=3, all dims, 3 chunkings, fresh or reused object"},
                    {"copy", sc_copy, true, "trees with <=4 (5) members x 6 coordinate layouts (own strides per ordinate, negative, unaligned) x byte order x view/shallow/deep/deep of deep, fresh or reused"},
                    {"history", sc_history, true, "all sequences of 4 (5) operations build/deep/shallow/reset/null on two objects"},
                    {"badnodes", sc_badnodes, true, "node lists of trees with <=4 (5) members x one wrong size, lost, doubled, retyped or redimensioned node"},
                    {"long", sc_long, true, "23 lengths around the visit chunk size x 3 shapes x layouts"},
                    {"nesting", sc_nesting, true, "0..79 (0..299) nested collections x 8 leaves, built and copied"},
                    {"nodeset", sc_nodeset, true, "0..3 coordinates x dims x layout x byte order, all output capacities, all target dims"},
                    {"copyall", sc_copyall, true, "trees with <=4 (5) members x 6 layouts x byte order x target dims x target layout"}});
}
