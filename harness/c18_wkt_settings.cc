// C18: WKT writer settings.
#include "h.h"
using namespace h;

static double adv(int i) {
  static const double k[] = {0.125, -2.5,  1234.5678, 1e-7,  3, -0.75, 1e17, 99999.96, 1.0 / 3,
                             7.0625, 1e-16, 123456789.125, -1, 0.5,  1e20, 0};
  return k[i % 16];
}
static void adversarial(Geom& g, int from) {
  int i = from;
  each_coord(g, [&](C4& c) {
    for (double& d : c.v) d = adv(i++);
  });
}
// What the text cut at the limit has to be
static std::string cut(const std::string& s, int64_t limit) {
  return limit >= 0 && (int64_t)s.size() > limit ? s.substr(0, (size_t)limit) : s;
}
static int eff(int p) { return p < 0 || p > 16 ? 16 : p; }

struct Row {
  bool null;
  Geom g;
  std::string full;
};

static void check_rows(const std::vector<Row>& rows, int64_t limit, const ArrowArray* a, const std::string& what) {
  std::vector<Bin> out;
  try {
    out = decode_serialized(a);
  } catch (Invalid& e) {
    fail("invalid", what + ": invalid array: " + e.why);
  }
  if (out.size() != rows.size()) fail("rows", what + fmt(": %zu rows instead of %zu", out.size(), rows.size()));
  int64_t nulls = 0;
  for (size_t i = 0; i < rows.size(); i++) {
    if (rows[i].null) {
      nulls++;
      if (!out[i].null) fail("validity", what + fmt(": row %zu should be null", i));
      continue;
    }
    if (out[i].null) fail("validity", what + fmt(": row %zu should not be null", i));
    std::string e = cut(rows[i].full, limit);
    if (out[i].s != e) fail("text", what + fmt(": row %zu is ", i) + quote(out[i].s) + " instead of " + quote(e));
  }
  if (a->null_count != -1 && a->null_count != nulls) fail("nulls", what + fmt(": null count %ld", (long)a->null_count));
  vf::state(vf::mix(vf::hash_str(what), (uint64_t)limit));
}

// Sends a row; a stop with EAGAIN ends the feature, as the readers' callers do.
static void send(GeoArrowVisitor* v, const Row& r, int64_t limit, const EmitOpts& eo, const std::string& what) {
  Feat f;
  f.null = r.null;
  f.g = r.g;
  int rc = emit_feat(f, v, eo);
  if (rc == EAGAIN) {
    if (r.null || limit < 0 || (int64_t)r.full.size() <= limit)
      fail("eagain", what + ": stopped although the text fits: " + quote(r.full));
    op();
    rc = v->feat_end(v);
  }
  if (rc) fail("code", what + fmt(": failed with code %d", rc));
}

static const int kPrec[] = {16, 0, 1, 3, 7, 15, -1, 17, 100};

static Row row_of(Geom g, const WktOpts& o) {
  Row r;
  r.null = false;
  r.g = canon(g);
  r.full = wkt(r.g, o);
  return r;
}

// Every tree, precision, flatness; every limit around its text; nulls around it.
static void writer() {
  WktWriter w;
  w.w.precision = kPrec[choose(vf::thorough() ? 9 : 8)];
  w.w.use_flat_multipoint = choose(2);
  WktOpts o;
  o.precision = eff(w.w.precision);
  o.flat = w.w.use_flat_multipoint;
  GenOpts go;
  go.budget = vf::thorough() ? 4 : 3;
  go.dims_mask = vf::thorough() ? 0x1E : 0x12;
  Geom g = gen_geom(go);
  adversarial(g, choose(vf::thorough() ? 4 : 2) * 5);
  Row r = row_of(g, o);
  // limits: all positions for a few precisions, else those at the borders
  int64_t L = (int64_t)r.full.size();
  int64_t limit = -1;
  bool all = w.w.precision == 16 || w.w.precision == 1 || vf::thorough();
  if (all) {
    limit = choose((int)L + 4) - 1;
    if (limit > L + 1) limit = INT64_MAX;
  } else {
    static const int kAt[] = {-1, 0, 1};
    int k = choose(7);
    limit = k < 3 ? kAt[k] : k == 6 ? INT64_MAX : L + k - 4;
  }
  w.w.max_element_size_bytes = limit;
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  GeoArrowWKTWriterInitVisitor(&w.w, &v);
  int layout = limit < 0 || limit == L ? choose(4) : all ? choose(2) : 1;
  Values vals;
  Row nul;
  nul.null = true;
  Row after = row_of(shape(T_LINESTRING, 1, 1, vals), o);
  std::vector<Row> rows;
  if (layout == 0) rows = {r, after};
  if (layout == 1) rows = {nul, r, nul, after};
  if (layout == 2) rows = {r};
  if (layout == 3) rows = {after, r, nul, r, after};
  EmitOpts eo;
  eo.chunk = choose(2);
  std::string what = fmt("precision %d flat %d limit %ld layout %d ", w.w.precision, (int)w.w.use_flat_multipoint, (long)limit, layout) + str(r.g);
  note("%s", what.c_str());
  for (auto& x : rows) send(&v, x, limit, eo, what);
  Owned out;
  op();
  GeoArrowError err;
  if (GeoArrowWKTWriterFinish(&w.w, &out.a, &err)) fail("finish", what + ": finish failed");
  check_rows(rows, limit, &out.a, what);
}

// Histories of batches in which the settings change before each one.
static void batches() {
  WktWriter w;
  int nb = vf::thorough() ? 3 : 2;
  Values vals;
  for (int b = 0; b < nb; b++) {
    int s = choose(vf::thorough() ? 6 : 5);
    w.w.precision = s == 0 ? 16 : s == 1 ? 0 : s == 2 ? 2 : 16;
    w.w.use_flat_multipoint = s != 3;
    w.w.max_element_size_bytes = s == 2 ? 12 : s == 4 ? 0 : s == 5 ? 25 : -1;
    WktOpts o;
    o.precision = w.w.precision;
    o.flat = w.w.use_flat_multipoint;
    int64_t limit = w.w.max_element_size_bytes;
    GeoArrowVisitor v;
    memset(&v, 0, sizeof v);
    GeoArrowWKTWriterInitVisitor(&w.w, &v);
    // settings written after the visitor was initialised count for the next one only
    if (choose(2)) {
      w.w.precision = 5;
      w.w.max_element_size_bytes = 3;
      w.w.use_flat_multipoint = 0;
    }
    std::vector<Row> rows;
    int n = choose(vf::thorough() ? 4 : 3);
    std::string what = fmt("batch %d setting %d:", b, s);
    for (int i = 0; i < n; i++) {
      int k = choose(4);
      Row r;
      r.null = true;
      if (k) {
        Geom g = shape(k == 1 ? T_MULTIPOINT : k == 2 ? T_POLYGON : T_GC, 1 + i, 1 + i % 2, vals);
        adversarial(g, i + b);
        r = row_of(g, o);
      }
      what += k ? " f" : " null";
      rows.push_back(r);
    }
    note("%s", what.c_str());
    for (auto& x : rows) send(&v, x, limit, EmitOpts(), what);
    Owned out;
    op();
    GeoArrowError err;
    if (GeoArrowWKTWriterFinish(&w.w, &out.a, &err)) fail("finish", what + ": finish failed");
    check_rows(rows, limit, &out.a, what);
  }
}

// Long sequences stop early, at every depth of nesting and with any chunking.
static void stops() {
  WktWriter w;
  static const int kT[] = {T_LINESTRING, T_POLYGON, T_MULTIPOINT, T_MULTILINESTRING, T_MULTIPOLYGON, T_GC};
  int t = kT[choose(6)];
  int dims = 1 + choose(4);
  bool many = choose(2);  // many coordinates in one sequence, or many sequences
  w.w.use_flat_multipoint = choose(2);
  static const int kLim[] = {0, 1, 7, 30, 31, 64, 100, 255, 1000};
  int64_t limit = kLim[choose(9)];
  w.w.max_element_size_bytes = limit;
  Values vals;
  auto seq = [&](int n) {
    std::vector<C4> r;
    for (int i = 0; i < n; i++) r.push_back(vals.c());
    return r;
  };
  Geom g = mk(t, dims);
  int outer = many ? 2 : 300, inner = many ? 600 : 2;
  if (t == T_LINESTRING) g.coords = seq(600);
  else if (t == T_POLYGON)
    for (int i = 0; i < outer; i++) g.rings.push_back(seq(inner));
  else
    for (int i = 0; i < outer; i++) {
      Geom p = mk(t == T_GC ? T_LINESTRING : t - 3, dims);
      if (p.type == T_POINT) p.coords = seq(1);
      else if (p.type == T_LINESTRING) p.coords = seq(inner);
      else p.rings.push_back(seq(inner));
      g.parts.push_back(p);
    }
  WktOpts o;
  o.flat = w.w.use_flat_multipoint;
  Row r = row_of(g, o);
  Row nul;
  nul.null = true;
  Row after = row_of(shape(T_MULTIPOINT, 1, 2, vals), o);
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  GeoArrowWKTWriterInitVisitor(&w.w, &v);
  std::string what = fmt("long type %d dims %d limit %ld", t, dims, (long)limit);
  note("%s", what.c_str());
  Feat f;
  f.g = r.g;
  std::vector<Row> rows;
  bool nulls = choose(2);
  if (nulls) rows.push_back(nul);
  rows.push_back(r);
  if (nulls) rows.push_back(nul);
  rows.push_back(after);
  bool stopped = false;
  for (auto& x : rows) {
    if (&x - &rows[0] == (nulls ? 1 : 0)) {
      int rc = emit_feat(f, &v);
      if (rc == EAGAIN) {
        stopped = true;
        rc = v.feat_end(&v);
      }
      if (rc) fail("code", what + fmt(": failed with code %d", rc));
    } else {
      send(&v, x, limit, EmitOpts(), what);
    }
  }
  if (!stopped && many && t != T_MULTIPOINT) fail("nostop", what + ": the whole geometry was written");
  Owned out;
  op();
  GeoArrowError err;
  if (GeoArrowWKTWriterFinish(&w.w, &out.a, &err)) fail("finish", what + ": finish failed");
  check_rows(rows, limit, &out.a, what);
}

// The format_wkt kernel with any of its options, from any input encoding.
static std::string options(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string s;
  auto i32 = [&](int32_t x) { s.append((char*)&x, 4); };
  i32((int32_t)kv.size());
  for (auto& p : kv) {
    i32((int32_t)p.first.size());
    s += p.first;
    i32((int32_t)p.second.size());
    s += p.second;
  }
  return s;
}

struct Kern {
  GeoArrowKernel k;
  int rc;
  Kern(const char* n) {
    memset(&k, 0, sizeof k);
    rc = GeoArrowKernelInit(&k, n, nullptr);
    op();
  }
  ~Kern() {
    if (!rc && k.release) k.release(&k);
  }
};

static void kernel() {
  int dims = 1 + choose(2) * 3;
  static const int kT[] = {T_POINT, T_LINESTRING, T_MULTIPOINT, T_MULTIPOLYGON};
  int gt = kT[choose(4)];
  int enc = choose(3);
  static const char* kP[] = {nullptr, "0", "1", "5", "16", "-1", "17"};
  int p = choose(7);
  std::vector<Row> rows;
  Values vals;
  WktOpts o;
  o.precision = p == 0 ? 16 : eff(atoi(kP[p]));
  int nrows = 3;
  int mask = choose(8);
  for (int i = 0; i < nrows; i++) {
    Row r;
    r.null = true;
    if (!(mask & (1 << i))) {
      Geom g = shape(gt, dims, gt == T_POINT ? 1 : i + 1, vals);
      adversarial(g, 2 * i);
      r = row_of(g, o);
    }
    rows.push_back(r);
  }
  size_t L = 0;
  for (auto& r : rows)
    if (!r.null) L = std::max(L, r.full.size());
  // limits around interesting places
  std::vector<int64_t> lim = {-1, 0, 1, 10, (int64_t)L / 2, (int64_t)L - 1, (int64_t)L, (int64_t)L + 5};
  int li = choose((int)lim.size() + 1);
  int64_t limit = li == 0 ? -1 : lim[li - 1];
  if (limit < -1) limit = -1;
  std::vector<std::pair<std::string, std::string>> kv;
  if (p) kv.push_back({"precision", kP[p]});
  if (li) kv.push_back({"max_element_size_bytes", fmt("%ld", (long)limit)});
  if (choose(2)) std::reverse(kv.begin(), kv.end());
  std::string opt = options(kv);
  Exact eo(opt.data(), opt.size());
  std::string what = fmt("kernel type %d dims %d enc %d precision %s limit %ld mask %d", gt, dims, enc, p ? kP[p] : "-", (long)limit, mask);
  note("%s", what.c_str());

  Kern k("format_wkt");
  if (k.rc) fail("init", "kernel not initialised");
  NType t{gt, dims, true};
  int type = enc == 0 ? GEOARROW_TYPE_WKB : enc == 1 ? t.type() : GEOARROW_TYPE_WKT;
  OwnedSchema in, outs;
  if (GeoArrowSchemaInitExtension(&in.s, (GeoArrowType)type)) fail("schema", "schema");
  GeoArrowError err;
  op();
  if (k.k.start(&k.k, &in.s, (const char*)(kv.empty() && choose(2) ? nullptr : eo.p), &outs.s, &err)) fail("start", what + ": start failed");
  if (!outs.s.format || strcmp(outs.s.format, "u")) fail("outtype", what + ": output is not a string array");
  int split = choose(4);
  for (int b = 0; b < 2; b++) {
    std::vector<Row> part(rows.begin() + (b ? split : 0), rows.begin() + (b ? 3 : split));
    Owned arr, out;
    NatOpts no;
    std::vector<Feat> fs;
    std::vector<std::string> ss;
    std::vector<bool> va;
    for (auto& r : part) {
      Feat f;
      f.null = r.null;
      f.g = r.g;
      fs.push_back(f);
      std::string s;
      if (!r.null && enc == 0) {
        Bytes bb;
        wkb(r.g, bb, WkbOpts());
        s.assign((char*)bb.data(), bb.size());
      }
      if (!r.null && enc == 2) {
        WktOpts full;
        full.flat = false;
        // the text must carry the exact value
        char nb[64];
        (void)nb;
        s = wkt(r.g, full);
      }
      ss.push_back(s);
      va.push_back(!r.null);
    }
    if (enc == 2)
      for (auto& r : part)
        each_coord(r.g, [](C4& c) { for (double d : c.v) vf::assume(strtod(fmt_fixed(d, 16).c_str(), nullptr) == d); });
    if (enc == 1) build_native(t, fs, no, arr);
    else build_serialized(ss, va, no, arr);
    op();
    int rc = k.k.push_batch(&k.k, &arr.a, &out.a, &err);
    if (rc) fail("push", what + fmt(": push_batch failed with code %d: %s", rc, err.message));
    check_rows(part, limit, &out.a, what);
  }
}

// The array writer's setters.
static void array_writer() {
  static const int kTypes[] = {GEOARROW_TYPE_WKT, GEOARROW_TYPE_WKB, 1, 10002, 6};
  int type = kTypes[choose(5)];
  ArrWriter w(type);
  if (w.rc) fail("init", "array writer not initialised");
  WktOpts o;
  int p = kPrec[choose(9)];
  int which = choose(4);
  bool text = type == GEOARROW_TYPE_WKT;
  if (which & 1) {
    op();
    int rc = GeoArrowArrayWriterSetPrecision(&w.w, p);
    if ((rc == 0) != text && !(text && (p < 0 || p > 16))) fail("setter", fmt("SetPrecision of type %d gave %d", type, rc));
    if (!rc) o.precision = eff(p);
  }
  if (which & 2) {
    int fl = choose(2);
    op();
    int rc = GeoArrowArrayWriterSetFlatMultipoint(&w.w, fl);
    if ((rc == 0) != text) fail("setter", fmt("SetFlatMultipoint of type %d gave %d", type, rc));
    if (!rc) o.flat = fl;
  }
  if (!text) return;
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  if (GeoArrowArrayWriterInitVisitor(&w.w, &v)) fail("visitor", "visitor not initialised");
  std::vector<Row> rows;
  Values vals;
  for (int b = 0; b < 2; b++) {
    Geom g = shape(b ? T_MULTIPOINT : 1 + choose(7), 1 + choose(4), 2, vals);
    adversarial(g, b * 3);
    rows = {row_of(g, o)};
    std::string what = fmt("array writer setters %d precision %d batch %d ", which, p, b) + str(g);
    note("%s", what.c_str());
    send(&v, rows[0], -1, EmitOpts(), what);
    Owned out;
    op();
    GeoArrowError err;
    if (GeoArrowArrayWriterFinish(&w.w, &out.a, &err)) fail("finish", what + ": finish failed");
    check_rows(rows, -1, &out.a, what);
  }
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"writer", writer, true, "all trees of up to 3 (thorough 4) members x 8 precisions x flatness x every limit x null placements"},
                    {"batches", batches, true, "all histories of 2 (3) batches of up to 2 (3) rows with 5 (6) settings changed between"},
                    {"stops", stops, true, "sequences of 600 coordinates in every type, dimension and 9 limits"},
                    {"kernel", kernel, true, "format_wkt over 4 types, 3 encodings, 7 precisions, 9 limits, all null masks and batch splits of 3 rows"},
                    {"array_writer", array_writer, true, "all setter calls on 5 writer types"}});
}
