// C05: histories of writers and readers.
#include "h.h"
using namespace h;

// One writer of any kind, with both entry points, next to a model that is a list of rows.
struct W {
  enum Kind { WKB, WKT, NAT, ARR } kind;
  std::unique_ptr<WkbWriter> wkb;
  std::unique_ptr<WktWriter> wkt;
  std::unique_ptr<NatWriter> nat;
  std::unique_ptr<ArrWriter> arr;
  int type = 0;
  NType nt{};
  GeoArrowVisitor v;
  GeoArrowError err;
  std::vector<Feat> model;
  Values vals;
  std::string trace;

  void init(Kind k, int t) {
    kind = k;
    type = t;
    wkb.reset();
    wkt.reset();
    nat.reset();
    arr.reset();
    if (k == WKB) wkb.reset(new WkbWriter());
    if (k == WKT) wkt.reset(new WktWriter());
    if (k == NAT) nat.reset(new NatWriter(t));
    if (k == ARR) arr.reset(new ArrWriter(t));
    if ((nat && nat->rc) || (arr && arr->rc)) fail("init", "writer not initialised");
    visitor();
    model.clear();
  }
  void visitor() {
    memset(&v, 0, sizeof v);
    memset(&err, 0, sizeof err);
    v.error = &err;
    int rc = 0;
    if (kind == WKB) GeoArrowWKBWriterInitVisitor(&wkb->w, &v);
    if (kind == WKT) GeoArrowWKTWriterInitVisitor(&wkt->w, &v);
    if (kind == NAT) rc = GeoArrowNativeWriterInitVisitor(&nat->w, &v);
    if (kind == ARR) rc = GeoArrowArrayWriterInitVisitor(&arr->w, &v);
    if (rc) fail("init", "visitor not initialised");
    v.error = &err;
  }
  bool appends() const { return kind == WKB || kind == NAT; }
  bool text() const { return kind == WKT || (kind == ARR && type == GEOARROW_TYPE_WKT); }
  bool native() const { return kind == NAT || (kind == ARR && is_native(type)); }
  int gt() const { return native() ? nt.geometry_type : -1; }
  int dims() const { return native() ? nt.dims : -1; }

  Feat make(int variant) {
    Feat f;
    static const int kG[] = {T_POINT, T_GC, T_MULTIPOLYGON};
    if (native()) f.g = shape(gt(), dims(), gt() == T_POINT ? variant & 1 : variant, vals);
    else f.g = shape(kG[variant % 3], 1 + variant % 4, variant ? variant : 1, vals);
    return f;
  }
  void ok(int rc, const char* what) {
    if (rc) fail("reject", fmt("%s failed with code %d: %s; ", what, rc, err.message) + trace);
  }
  void event(const Feat& f) {
    trace += f.null ? " null" : " feature";
    ok(emit_feat(f, &v), "sending a feature");
    model.push_back(canon(f));
  }
  void append(const Feat& f) {
    op();
    trace += f.null ? " append-null" : " append";
    int rc;
    if (f.null) rc = kind == WKB ? GeoArrowWKBWriterAppendNull(&wkb->w) : GeoArrowNativeWriterAppendNull(&nat->w);
    else {
      Nodes n;
      n.add(f.g);
      rc = kind == WKB ? GeoArrowWKBWriterAppend(&wkb->w, n.view()) : GeoArrowNativeWriterAppend(&nat->w, n.view(), &err);
    }
    ok(rc, "appending");
    model.push_back(canon(f));
  }
  // a feature that is not finished, or that the writer rejects
  void bad(int how) {
    trace += fmt(" bad%d", how);
    op();
    if (how == 0) {  // abandoned before anything was written
      v.feat_start(&v);
    } else if (how == 1) {  // abandoned in the middle
      v.feat_start(&v);
      v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_POLYGON, GEOARROW_DIMENSIONS_XY);
      v.ring_start(&v);
      std::vector<C4> c = {vals.c(), vals.c()};
      emit_seq(c, 2, &v, EmitOpts());
    } else if (how == 2) {  // not representable in any native type: rejected at the end
      Feat f;
      f.g = mk(T_GC, 1);
      f.g.parts.push_back(shape(T_MULTIPOLYGON, 1, 2, vals));
      f.g.parts.push_back(shape(T_LINESTRING, 1, 1, vals));
      int rc = emit_feat(f, &v);
      if (rc == 0) {
        // representable after all (WKB, WKT, and multi types take it)
        if (!native()) model.push_back(canon(f));
        else vf::assume(false);
      }
    } else {  // rejected by append
      if (kind == NAT) {
        Nodes n;
        Geom g = mk(T_GC, 1);
        g.parts.push_back(shape(T_LINESTRING, 1, 2, vals));
        n.add(g);
        if (GeoArrowNativeWriterAppend(&nat->w, n.view(), &err) == 0) fail("accepted", "a collection was appended to a native array");
      }
    }
  }
  void finish() {
    Owned out;
    op();
    int rc = 0;
    trace += " finish";
    if (kind == WKB) rc = GeoArrowWKBWriterFinish(&wkb->w, &out.a, &err);
    if (kind == WKT) rc = GeoArrowWKTWriterFinish(&wkt->w, &out.a, &err);
    if (kind == NAT) rc = GeoArrowNativeWriterFinish(&nat->w, &out.a, &err);
    if (kind == ARR) rc = GeoArrowArrayWriterFinish(&arr->w, &out.a, &err);
    ok(rc, "finishing");
    std::vector<Feat> got;
    try {
      if (native()) got = decode_native(nt, &out.a);
      else
        for (auto& b : decode_serialized(&out.a)) {
          Feat f;
          f.null = b.null;
          if (!b.null) {
            Verdict d = text() ? parse_wkt(b.s, f.g) : parse_wkb((const uint8_t*)b.s.data(), b.s.size(), f.g);
            if (d != V_OK && d != V_MAY) fail("output", "not valid: " + quote(b.s) + " after" + trace);
          }
          got.push_back(canon(f));
        }
    } catch (Invalid& i) {
      fail("invalid", "the array is not valid: " + i.why + " after" + trace);
    }
    if (!fseq(got, model)) fail("content", fmt("type %d: got ", type) + str(got) + ", expected " + str(model) + " after" + trace);
    int64_t nulls = 0;
    for (auto& f : model) nulls += f.null;
    if (out.a.null_count != nulls && out.a.null_count != -1) fail("null-count", fmt("null count %ld instead of %ld", (long)out.a.null_count, (long)nulls));
    vf::state(ref::hash(got));
    model.clear();
  }
};

static void pick_writer(W& w, bool all) {
  int k = choose(all ? 2 + 12 + 14 : 2 + 6 + 3);
  if (k == 0) w.init(W::WKB, GEOARROW_TYPE_WKB);
  else if (k == 1) w.init(W::WKT, GEOARROW_TYPE_WKT);
  else {
    k -= 2;
    int n = all ? 12 : 6;
    if (k < n || k >= n + 2) {
      bool arr = k >= n;
      if (arr) k -= n + 2;
      w.nt = NType{1 + k % 6, 1 + (k + (k / 6)) % 4, all ? k < 6 : (k & 1) == 0};
      w.init(arr ? W::ARR : W::NAT, w.nt.type());
    } else
      w.init(W::ARR, k == n ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT);
  }
}

// all sequences of operations
static void sc_ops() {
  W w;
  pick_writer(w, vf::thorough());
  int len = vf::thorough() ? 7 : 5;
  for (int i = 0; i < len; i++) {
    int c = choose(w.appends() ? 9 : 7);
    Feat null;
    null.null = true;
    switch (c) {
      case 0: w.event(w.make(1 + (i & 1))); break;
      case 1: w.event(null); break;
      case 2: w.finish(); break;
      case 3: w.bad(0); break;
      case 4: w.bad(1); break;
      case 5: w.bad(2); break;
      case 6:
        if (w.kind == W::NAT) w.bad(3);
        else w.event(w.make(0));
        break;
      case 7: w.append(w.make(1 + (i & 1))); break;
      case 8: w.append(null); break;
    }
  }
  w.finish();
  w.event(w.make(2));
  w.finish();
}

// every pattern of nulls around the byte boundary of the bitmap, over two batches
static void sc_bitmap() {
  W w;
  pick_writer(w, true);
  int n = vf::thorough() ? 11 : 9;
  int len = choose(n + 1);
  bool app = w.appends() && flip();
  int cut = choose(3);
  for (int i = 0; i < len; i++) {
    Feat f;
    if (flip()) f.null = true;
    else f = w.make(i & 1);
    if (app) w.append(f);
    else w.event(f);
    if (cut && i == (cut == 1 ? 0 : len / 2)) w.finish();
  }
  w.finish();
}

// long batches: growth of every buffer
static void sc_growth() {
  W w;
  pick_writer(w, true);
  static const int kN[] = {1, 7, 8, 9, 63, 64, 65, 127, 255, 256, 257, 700};
  int n = kN[choose(12)];
  int pat = choose(4);
  bool app = w.appends() && flip();
  int rounds = 1 + choose(2);
  for (int r = 0; r < rounds; r++) {
    for (int i = 0; i < n; i++) {
      Feat f;
      f.null = pat == 1 ? i % 3 == 0 : pat == 2 ? i == n - 1 : pat == 3 ? i == 0 : false;
      if (!f.null) f = w.make(i % 3);
      if (app) w.append(f);
      else w.event(f);
    }
    w.trace.clear();
    w.finish();
  }
}

// a reader that is given one array after the other
static void sc_reader() {
  int kind = choose(8);
  NType t{kind < 6 ? kind + 1 : T_LINESTRING, 1 + kind % 4, (kind & 1) != 0};
  int type = kind < 6 ? t.type() : kind == 6 ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT;
  ArrReader r(type);
  if (r.rc) fail("init", "reader not initialised");
  Values vals;
  static const int kArr = 5;
  // 0 empty array, 1 two rows, 2 three rows with a null and an offset, 3 one null row, 4 an array that is not accepted
  std::vector<std::unique_ptr<Owned>> arrs;
  std::vector<std::vector<Feat>> rows(kArr);
  for (int i = 0; i < kArr; i++) {
    arrs.emplace_back(new Owned());
    int n = i == 0 ? 0 : i == 1 ? 2 : i == 2 ? 3 : 1;
    NatOpts o;
    if (i == 2) o.off[0] = 5, o.lead[0] = 2, o.off[1] = 1;
    for (int j = 0; j < n; j++) {
      Feat f;
      f.null = (i == 2 && j == 1) || i == 3;
      if (!f.null) f.g = shape(t.geometry_type, t.dims, t.geometry_type == T_POINT ? 1 : 2 - (j & 1), vals);
      rows[i].push_back(f);
    }
    if (kind < 6) build_native(t, rows[i], o, *arrs[i]);
    else {
      std::vector<std::string> vs;
      std::vector<bool> ok;
      for (auto& f : rows[i]) {
        Bytes b;
        if (!f.null) wkb(f.g, b, WkbOpts());
        vs.push_back(f.null ? "" : kind == 7 ? ref::wkt(f.g, WktOpts()) : std::string(b.begin(), b.end()));
        ok.push_back(!f.null);
      }
      build_serialized(vs, ok, o, *arrs[i]);
    }
    if (i == 4) {
      arrs[i]->a.n_buffers--;
      if (kind < 6) arrs[i]->a.n_children = 0;
    }
  }
  GeoArrowError e;
  int cur = -1;
  int len = vf::thorough() ? 6 : 4;
  std::string tr;
  for (int i = 0; i < len; i++) {
    int c = choose(kArr + 2);
    op();
    if (c < kArr) {
      int rc = GeoArrowArrayReaderSetArray(&r.r, &arrs[c]->a, &e);
      if ((rc != 0) != (c == 4)) fail("set", fmt("setting array %d gave code %d after", c, rc) + tr);
      cur = c == 4 ? -1 : c;
      tr += fmt(" set%d", c);
    } else {
      vf::assume(cur >= 0);
      int n = (int)rows[cur].size();
      int from = c == kArr ? 0 : n / 2;
      int cnt = c == kArr ? n : n - from;
      Rec rec;
      int rc = GeoArrowArrayReaderVisit(&r.r, from, cnt, &rec.v);
      rec.done();
      vf::raise_deferred();
      tr += fmt(" visit[%d,%d)", from, from + cnt);
      std::vector<Feat> got, want;
      for (auto& f : rec.feats) got.push_back(canon(f));
      for (int j = 0; j < cnt; j++) want.push_back(canon(rows[cur][from + j]));
      if (rc || !fseq(got, want)) fail("reader", fmt("type %d: code %d, got ", type, rc) + str(got) + ", expected " + str(want) + " after" + tr);
      vf::state(vf::mix(ref::hash(got), i));
    }
  }
}

struct defer_limit {
  ~defer_limit() { vf_alloc_limit(256L << 20, 1L << 30); }
};
// Batches whose content just fits in 2^31-1 bytes, and those that don't.
static void sc_full() {
  bool text = vf::thorough() ? choose(2) : false;
  vf_alloc_limit(3000L << 20, 6000L << 20);
  defer_limit reset;
  int over = choose(3);  // exactly 2^31-1 bytes, one more, many more
  ArrWriter w(text ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB);
  GeoArrowVisitor v;
  memset(&v, 0, sizeof v);
  GeoArrowError err;
  v.error = &err;
  if (w.rc || GeoArrowArrayWriterInitVisitor(&w.w, &v)) fail("init", "writer not initialised");
  const int64_t kMax = 2147483647;
  int64_t sum = 0, rows = 0;
  auto feature = [&](int type, int dims, int64_t n, double x, int64_t size) {
    double d[4] = {x, x, x, x};
    GeoArrowCoordView c;
    memset(&c, 0, sizeof c);
    c.n_coords = n;
    c.n_values = kND[dims];
    c.coords_stride = 0;
    for (int j = 0; j < 4; j++) c.values[j] = d + j;
    op();
    int rc = v.feat_start(&v);
    if (!rc) rc = v.geom_start(&v, (GeoArrowGeometryType)type, (GeoArrowDimensions)dims);
    if (!rc && n) rc = v.coords(&v, &c);
    if (!rc) rc = v.geom_end(&v);
    if (!rc) rc = v.feat_end(&v);
    if (!rc) rows++, sum += size;
    else if (sum + size <= kMax) fail("full", fmt("a feature of %lld bytes after %lld bytes was rejected with code %d", (long long)size, (long long)sum, rc));
    return rc;
  };
  int points = 0;
  const double kX = -1.2345678901234567e+300;
  char buf[64];
  std::string num(buf, (size_t)GeoArrowPrintDouble(kX, 16, buf));
  if (!text) {
    points = over == 0 ? 14 : 11;
    for (int i = 0; i < points; i++) feature(T_POINT, 1, 1, i, 21);
    int64_t n = (kMax - 9 - points * 21 + (over ? 15 : 0)) / 16 + (over == 2 ? 5 : 0);
    feature(T_LINESTRING, 1, n, 0.5, 9 + 16 * n);
  } else {
    // in each coordinate four numbers, three spaces, a comma and a space
    const int64_t kC = 4 * (int64_t)num.size() + 3 + 2, head = 14;  // "LINESTRING ZM (" and ")", without the last separator
    int64_t n = (kMax - head) / kC - 3, rest = kMax - head - n * kC + (over ? 1 : 0);
    // filled up with texts of 11 and of 16 characters
    int64_t k = 0;
    while ((rest - 11 * k) % 16 != 0) k++;
    points = (int)(k + (rest - 11 * k) / 16);
    for (int i = 0; i < points; i++) feature(i < k ? T_POINT : T_LINESTRING, 1, 0, 0, i < k ? 11 : 16);
    if (over == 2) n += 5;
    feature(T_LINESTRING, 4, n, kX, head + n * kC);
  }
  if (rows == points + 1 && (over == 0 ? sum != kMax : over == 1 ? sum != kMax + 1 : sum <= kMax + 1)) fail("harness", fmt("%lld bytes", (long long)sum));
  // nothing fits any more, and nothing of it may be seen
  bool last = feature(T_POINT, 1, 1, 1, text ? 11 : 21) == 0;
  if (last && sum - (text ? 11 : 21) > kMax) fail("full", "a feature was accepted after more than 2^31-1 bytes");
  Owned out;
  op();
  int rc = GeoArrowArrayWriterFinish(&w.w, &out.a, &err);
  vf::state(vf::mix((uint64_t)over * 2 + text, (uint64_t)rc));
  note("text %d over %d: %lld rows, %lld bytes, finish gives %d", text, over, (long long)rows, (long long)sum, rc);
  if (sum > kMax) {
    if (!rc) fail("full", fmt("%lld bytes were finished in an array of 32-bit offsets", (long long)sum));
    return;
  }
  if (rc) fail("full", fmt("%lld bytes can't be finished: code %d", (long long)sum, rc));
  const int32_t* off = (const int32_t*)out.a.buffers[1];
  const char* data = (const char*)out.a.buffers[2];
  if (out.a.length != rows || out.a.null_count != 0 || off[0] != 0 || off[rows] != sum) fail("full", "the full batch has other rows or sizes");
  for (int i = 0; i < points; i++) {
    std::string x(data + off[i], (size_t)(off[i + 1] - off[i]));
    if (x.size() != (text ? x[0] == 'P' ? 11u : 16u : 21u) || (text && x != "POINT EMPTY" && x != "LINESTRING EMPTY")) fail("full", fmt("row %d of the full batch is wrong", i));
  }
  if (rows > points) {
    const char* p = data + off[points];
    size_t n = (size_t)(off[points + 1] - off[points]);
    std::string first = "LINESTRING ZM (" + num + " ", last = " " + num + ")";
    if (text ? memcmp(p, first.data(), first.size()) || memcmp(p + n - last.size(), last.data(), last.size()) : n != *(const uint32_t*)(p + 5) * 16ull + 9)
      fail("full", "the last row of the full batch is wrong");
  }
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"ops", sc_ops, true, "11 (28) writers x all sequences of 5 (7) of 7-9 operations (features, nulls, appends, abandoned and rejected "
                                          "features, finish)"},
                    {"bitmap", sc_bitmap, true, "28 writers x every null pattern up to 9 (11) rows x entry point x 3 batch divisions"},
                    {"growth", sc_growth, true, "28 writers x 12 batch sizes up to 700 x 4 null patterns x entry point x 1..2 batches"},
                    {"full", sc_full, true, "WKB (and WKT) batches of 2^31-1 bytes, one more, and many more", 200},
                    {"reader", sc_reader, true, "8 readers x all sequences of 4 (6) of 5 arrays set and 2 ranges visited"}});
}
