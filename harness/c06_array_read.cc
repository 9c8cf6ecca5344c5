// C06: reading rows of Arrow arrays with any offsets, ranges, validity and layout.
#include "h.h"
using namespace h;

static std::string opt_str(const NatOpts& o) {
  return fmt("off=%d,%d,%d,%d,%d lead=%d,%d,%d ord=%d,%d,%d,%d validity=%d trail=%d nullcontent=%d nullcount=%d", o.off[0], o.off[1], o.off[2],
             o.off[3], o.off[4], o.lead[0], o.lead[1], o.lead[2], o.ord[0], o.ord[1], o.ord[2], o.ord[3], o.validity, o.trail, o.null_content, o.null_count);
}

// visits [from, from+n) through one of the entry points
enum Via { READER, VIEW, READER_SCHEMA, VIEW_SCHEMA };
static void read_rows(int type, const ArrowArray* a, int from, int n, Via via, std::vector<Feat>& out, int* code) {
  Rec rec;
  GeoArrowError e;
  memset(&e, 0, sizeof e);
  int rc = 0;
  op();
  if (via == VIEW || via == VIEW_SCHEMA) {
    GeoArrowArrayView v;
    OwnedSchema s;
    if (via == VIEW_SCHEMA) {
      if (GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type)) fail("schema", "schema not initialised");
      if (GeoArrowArrayViewInitFromSchema(&v, &s.s, &e)) fail("init", "array view not initialised from its schema");
      if (v.schema_view.type != type) fail("init", "the array view has another type than the schema");
    } else if (GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type)) fail("init", "array view not initialised");
    rc = GeoArrowArrayViewSetArray(&v, a, &e);
    if (!rc) rc = GeoArrowArrayViewVisitNative(&v, from, n, &rec.v);
  } else {
    GeoArrowArrayReader r;
    if (via == READER_SCHEMA) {
      OwnedSchema s;
      if (GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type)) fail("schema", "schema not initialised");
      if (GeoArrowArrayReaderInitFromSchema(&r, &s.s, &e)) fail("init", "array reader not initialised from its schema");
    } else if (GeoArrowArrayReaderInitFromType(&r, (GeoArrowType)type))
      fail("init", "array reader not initialised");
    rc = GeoArrowArrayReaderSetArray(&r, a, &e);
    if (!rc) rc = GeoArrowArrayReaderVisit(&r, from, n, &rec.v);
    GeoArrowArrayReaderReset(&r);
  }
  rec.done();
  vf::raise_deferred();
  *code = rc;
  for (auto& f : rec.feats) out.push_back(canon(f));
}

static void expect_rows(const std::string& what, int type, const ArrowArray* a, int from, int n, Via via,
                        const std::vector<Feat>& rows) {
  std::vector<Feat> got, want;
  for (int i = 0; i < n; i++) want.push_back(canon(rows[from + i]));
  int rc;
  read_rows(type, a, from, n, via, got, &rc);
  vf::state(ref::hash(got));
  note("%s type %d rows [%d,%d) of %zu", what.c_str(), type, from, from + n, rows.size());
  if (rc) fail("error", fmt("type %d: visiting rows %d+%d failed with code %d; %s", type, from, n, rc, what.c_str()));
  if (!fseq(got, want)) fail("rows", fmt("type %d rows %d+%d of ", type, from, n) + str(rows) + ": got " + str(got) + "; " + what);
}

static const int kGT[] = {1, 2, 3, 4, 5, 6};

static void gen_rows(int gt, int dims, int n, std::vector<Feat>& rows, int nvar) {
  Values vals;
  for (int i = 0; i < n; i++) {
    Feat f;
    int k = choose(nvar + 1);
    if (k == nvar) f.null = true;
    else {
      int var = gt == T_POINT ? k % 2 : k;
      f.g = shape(gt, dims, var, vals);
    }
    rows.push_back(f);
  }
}

// layouts of native arrays
static void sc_native() {
  NType t;
  t.geometry_type = kGT[choose(6)];
  int c = choose(8);
  t.dims = 1 + c % 4;
  t.interleaved = c / 4;
  int maxn = vf::thorough() ? 4 : 3;
  std::vector<Feat> rows;
  int n = choose(maxn + 1);
  gen_rows(t.geometry_type, t.dims, n, rows, t.geometry_type == T_POINT ? 2 : 3);
  NatOpts o;
  int lev = n_offsets(t.geometry_type);
  int lay = choose(vf::thorough() ? 8 : 6);
  // 0 plain, 1 parent offset, 2 child offsets, 3 parent and child offsets, 4 leading list elements, 5 all at once, 6.. deeper
  if (lay == 1 || lay == 3 || lay == 5) o.off[0] = lay == 3 ? 5 : 3;
  if (lay == 2 || lay == 3 || lay == 5 || lay == 6)
    for (int i = 1; i <= lev + 1; i++) o.off[i] = (lay == 6 ? i == 1 : true) ? i : 0;
  if (lay == 2 || lay == 5 || lay == 7)
    for (int i = 0; i < 4; i++) o.ord[i] = lay == 7 ? i : (i * 3 + 1) % 4;
  if (lay == 4 || lay == 5 || lay == 7)
    for (int i = 0; i < lev; i++) o.lead[i] = lay == 7 ? 3 - i : 1 + i;
  o.trail = lay == 5 || flip();
  int nul = choose(3);
  o.null_content = nul == 1;
  o.validity = nul != 0;
  o.null_count = nul == 2 ? -1 : -2;
  int from = choose(n + 1), len = choose(n - from + 1);
  Owned a;
  build_native(t, rows, o, a);
  expect_rows(opt_str(o), t.type(), &a.a, from, len, READER, rows);
  if (from == 0 && len == n) {
    expect_rows(opt_str(o), t.type(), &a.a, from, len, VIEW, rows);
    expect_rows(opt_str(o), t.type(), &a.a, from, len, READER_SCHEMA, rows);
    expect_rows(opt_str(o), t.type(), &a.a, from, len, VIEW_SCHEMA, rows);
  }
}

// validity bitmaps around byte boundaries
static void sc_bitmap() {
  int maxn = vf::thorough() ? 12 : 9;
  int n = choose(maxn + 1);
  int kind = choose(3);
  NatOpts o;
  o.off[0] = choose(vf::thorough() ? 17 : 10);
  o.validity = true;
  std::vector<Feat> rows;
  Values vals;
  NType t{kind == 0 ? T_POINT : T_LINESTRING, 1, kind == 0};
  for (int i = 0; i < n; i++) {
    Feat f;
    f.null = flip();
    if (!f.null) f.g = shape(t.geometry_type, 1, 1, vals);
    rows.push_back(f);
  }
  int from = 0, len = n;
  int cut = choose(3);
  if (cut) {
    vf::assume(n > 1);
    from = cut == 1 ? 1 : n / 2;
    len = n - from;
  }
  Owned a;
  int type = t.type();
  if (kind == 2) {
    std::vector<std::string> vs;
    std::vector<bool> ok;
    for (auto& f : rows) {
      Bytes b;
      if (!f.null) wkb(f.g, b, WkbOpts());
      vs.emplace_back(b.begin(), b.end());
      ok.push_back(!f.null);
    }
    build_serialized(vs, ok, o, a);
    type = GEOARROW_TYPE_WKB;
  } else
    build_native(t, rows, o, a);
  expect_rows(opt_str(o), type, &a.a, from, len, READER, rows);
}

// binary / string view arrays
static void build_view(const std::vector<std::string>& vals, const std::vector<bool>& valid, const NatOpts& o, Owned& out, int nvar) {
  int off = o.off[0];
  std::vector<std::string> phys;
  std::vector<bool> pv;
  for (int i = 0; i < off; i++) phys.push_back(i & 1 ? "xy" : "a long element of another row"), pv.push_back(i & 1);
  for (size_t i = 0; i < vals.size(); i++) phys.push_back(vals[i]), pv.push_back(valid[i]);
  Arr* a = arr_new((int64_t)vals.size(), off);
  bool any_null = o.validity;
  for (bool v : valid) any_null = any_null || !v;
  if (any_null) {
    Bytes bm((phys.size() + 7) / 8, 0);
    int64_t nulls = 0;
    for (size_t i = 0; i < phys.size(); i++)
      if (pv[i]) bm[i / 8] |= (uint8_t)(1 << (i % 8));
    for (bool v : valid) nulls += !v;
    arr_buf(a, bm.data(), bm.size());
    a->a.null_count = o.null_count == -2 ? nulls : o.null_count;
  } else
    arr_buf(a, nullptr, 0, true);
  std::vector<std::string> data(nvar);
  Bytes views;
  int k = 0;
  for (auto& s : phys) {
    uint8_t v[16];
    memset(v, 0, 16);
    int32_t n = (int32_t)s.size();
    memcpy(v, &n, 4);
    if (n <= 12) memcpy(v + 4, s.data(), n);
    else {
      memcpy(v + 4, s.data(), 4);
      int32_t b = k++ % nvar, p = (int32_t)data[b].size();
      memcpy(v + 8, &b, 4);
      memcpy(v + 12, &p, 4);
      data[b] += s;
    }
    views.insert(views.end(), v, v + 16);
  }
  arr_buf(a, views.data(), views.size());
  std::vector<int64_t> sizes;
  for (auto& d : data) {
    arr_buf(a, d.data(), d.size());
    sizes.push_back((int64_t)d.size());
  }
  arr_buf(a, sizes.data(), sizes.size() * 8);
  out.hand = a;
  out.a = a->a;
}

static void sc_serialized() {
  static const int kT[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT,
                           GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT_VIEW};
  int ti = choose(6);
  int type = kT[ti];
  bool text = ti & 1;
  int maxn = vf::thorough() ? 4 : 3;
  int n = choose(maxn + 1);
  std::vector<Feat> rows;
  std::vector<std::string> vs;
  std::vector<bool> ok;
  for (int i = 0; i < n; i++) {
    int k = choose(5);
    Feat f;
    std::string s;
    if (k == 0) {
      f.null = true;
      s = i & 1 ? "" : text ? "POINT (" : "\x01\x02";  // what a null holds must not matter
    } else {
      f.g = mk(k == 1 ? T_LINESTRING : T_POINT, 1);
      C4 c = {{i + 1.0, k == 3 ? 22.0 : k == 4 ? 222.0 : 2.0, 0, 0}};  // 11, 12, 13 characters
      if (k > 1) f.g.coords.push_back(c);
      if (text) s = wkt(f.g, WktOpts());
      else {
        Bytes b;
        wkb(f.g, b, WkbOpts());
        s.assign(b.begin(), b.end());
      }
    }
    rows.push_back(f);
    vs.push_back(s);
    ok.push_back(!f.null);
  }
  NatOpts o;
  static const int kO[] = {0, 1, 7, 8};
  o.off[0] = kO[choose(4)];
  o.lead[0] = flip() ? 5 : 0;
  o.trail = flip();
  int nul = choose(3);
  o.validity = nul != 0;
  o.null_count = nul == 2 ? -1 : -2;
  int from = choose(n + 1), len = choose(n - from + 1);
  Owned a;
  if (ti >= 4) build_view(vs, ok, o, a, o.lead[0] ? 2 : 1);
  else build_serialized(vs, ok, o, a, ti >= 2);
  expect_rows(opt_str(o), type, &a.a, from, len, READER, rows);
  if (from == 0 && len == n) expect_rows(opt_str(o), type, &a.a, from, len, READER_SCHEMA, rows);
}

static void sc_box() {
  int dims = 1 + choose(4);
  int n = choose(4);
  std::vector<Feat> els, rows;
  for (int i = 0; i < n; i++) {
    Feat e;
    int k = choose(6);
    double x0 = i + 1, y0 = 10 * i + 2, x1 = x0 + 3, y1 = y0 + 4;
    if (k == 1) x1 = x0 - 1;
    if (k == 2) y1 = y0 - 1;
    if (k == 3) x0 = INFINITY, y0 = INFINITY, x1 = -INFINITY, y1 = -INFINITY;
    if (k == 4) x1 = x0, y1 = y0;
    e.null = k == 5;
    e.g = mk(T_BOX, dims);
    e.g.coords.push_back(C4{{x0, y0, x1, y1}});
    els.push_back(e);
    Feat r;
    r.null = e.null;
    r.g = mk(T_POLYGON, 1);
    if (x0 <= x1 && y0 <= y1)
      r.g.rings.push_back({C4{{x0, y0, 0, 0}}, C4{{x1, y0, 0, 0}}, C4{{x1, y1, 0, 0}}, C4{{x0, y1, 0, 0}}, C4{{x0, y0, 0, 0}}});
    rows.push_back(r);
  }
  NatOpts o;
  o.off[0] = choose(3) * 4;
  o.off[1] = choose(3);
  if (o.off[1] == 2)
    for (int i = 0; i < 4; i++) o.ord[i] = (i * 3 + 1) % 4;
  o.trail = flip();
  o.validity = flip();
  int from = choose(n + 1), len = choose(n - from + 1);
  Owned a;
  NType t{T_BOX, dims, false};
  build_native(t, els, o, a);
  if (dims == 1) {
    expect_rows(opt_str(o), t.type(), &a.a, from, len, READER, rows);
    return;
  }
  std::vector<Feat> got;
  int rc;
  read_rows(t.type(), &a.a, from, len, READER, got, &rc);
  if (len > 0 && (rc == 0 || !got.empty())) fail("box-dims", "a box with Z or M was visited although it has no polygon");
}

// arrays whose structure is not that of the type
static void all_nodes(Arr* a, std::vector<Arr*>& out) {
  out.push_back(a);
  for (auto* k : a->kids) all_nodes(k, out);
}
static void sc_mutant() {
  NType t{T_POINT, 1, true};
  int type;
  int k = choose(12);
  NatOpts o;
  std::vector<Feat> rows;
  Values vals;
  Owned a;
  int n = choose(3);
  o.validity = flip();
  if (k >= 7) {
    static const int kT[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_LARGE_WKT};
    type = kT[k - 7];
    std::vector<std::string> vs;
    std::vector<bool> ok;
    for (int i = 0; i < n; i++) {
      Feat f;
      f.g = shape(T_POINT, 1, 1, vals);
      Bytes b;
      wkb(f.g, b, WkbOpts());
      vs.push_back(k == 8 || k == 11 ? wkt(f.g, WktOpts()) : std::string(b.begin(), b.end()));
      ok.push_back(true);
    }
    if (k == 10) build_view(vs, ok, o, a, 1);
    else build_serialized(vs, ok, o, a, k == 9 || k == 11);
  } else {
    t.geometry_type = k == 6 ? T_BOX : kGT[k];
    t.dims = 1 + choose(4);
    t.interleaved = k != 6 && flip();
    type = t.type();
    for (int i = 0; i < n; i++) {
      Feat f;
      f.g = k == 6 ? mk(T_BOX, t.dims) : shape(t.geometry_type, t.dims, 1, vals);
      rows.push_back(f);
    }
    build_native(t, rows, o, a);
  }
  std::vector<Arr*> nodes;
  all_nodes(a.hand, nodes);
  int m = choose((int)nodes.size());
  Arr* x = nodes[m];
  int what = choose(4);
  // exactly sized pointer arrays, so that reading one pointer too many is seen
  std::vector<const void*> nb;
  std::vector<ArrowArray*> nk;
  ArrowArray& ar = m == 0 ? a.a : x->a;
  bool leaf = x->kids.empty() && m > 0;
  if (what == 0) {  // one buffer less
    vf::assume(ar.n_buffers > 0);
    for (int i = 0; i + 1 < ar.n_buffers; i++) nb.push_back(ar.buffers[i]);
    nb.shrink_to_fit();
    ar.n_buffers--;
    ar.buffers = nb.empty() ? nullptr : nb.data();
  } else if (what == 1) {
    for (int i = 0; i < ar.n_buffers; i++) nb.push_back(ar.buffers[i]);
    nb.push_back(nullptr);
    nb.shrink_to_fit();
    ar.n_buffers++;
    ar.buffers = nb.data();
  } else if (what == 2) {
    vf::assume(ar.n_children > 0);
    for (int i = 0; i + 1 < ar.n_children; i++) nk.push_back(ar.children[i]);
    nk.shrink_to_fit();
    ar.n_children--;
    ar.children = nk.empty() ? nullptr : nk.data();
  } else {
    for (int i = 0; i < ar.n_children; i++) nk.push_back(ar.children[i]);
    nk.push_back(&ar);
    nk.shrink_to_fit();
    ar.n_children++;
    ar.children = nk.data();
  }
  note("type %d node %d mutation %d", type, m, what);
  std::vector<Feat> got;
  int rc;
  read_rows(type, &a.a, 0, n, READER, got, &rc);
  vf::state(vf::mix(vf::mix(type, m * 8 + what), rc));
  static const char* kW[] = {"a buffer less", "a buffer more", "a child less", "a child more"};
  // a view array has any number of data buffers
  if (k == 10 && what <= 1) return;
  // an ordinate array has no children to look at
  if (what == 3 && leaf && rc == 0) return;
  if (rc == 0) fail(fmt("mutant:%d:%d", what, k >= 7), fmt("type %d: an array of which node %d has %s was accepted", type, m, kW[what]));
  if (rc && !got.empty()) fail("mutant-rows", "rows of an array that does not match the type were visited");
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"native", sc_native, true, "6 types x 8 dims/layouts x all row sequences up to 3 (4) of 3-4 kinds x 6 (8) offset layouts x "
                                                "trailing x 3 validities x all ranges"},
                    {"bitmap", sc_bitmap, true, "3 types x up to 9 (12) rows x every null pattern x offsets 0..9 (16) x 3 ranges"},
                    {"serialized", sc_serialized, true, "6 serialized types x up to 3 (4) rows of 5 kinds x offsets x leading bytes x trailing x 3 "
                                                        "validities x all ranges"},
                    {"box", sc_box, true, "4 box types x up to 3 rows of 6 kinds x offsets x all ranges"},
                    {"mutant", sc_mutant, true, "12 type groups x every node x one buffer or child more or less"}});
}
