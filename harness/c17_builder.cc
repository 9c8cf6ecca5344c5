// C17: array builders.
#include "h.h"
#include <list>
using namespace h;

// The buffers of an array in the order in which a builder numbers them.
struct Content {
  std::vector<Bytes> b;
  std::vector<int> unit;  // bytes per element
  int n_off = 0;
  int64_t length = 0;
};
struct Type {
  int type;
  bool serialized, large;
  NType nt;
};
static Type serialized(int type) { return {type, true, type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT, {}}; }
static std::vector<Type> all_types() {
  std::vector<Type> o;
  for (int c = 0; c < 2; c++)
    for (int d = 1; d <= 4; d++)
      for (int g : {1, 2, 3, 4, 5, 6, 990}) {
        if (g == 990 && c) continue;
        NType t{g, d, c == 1};
        o.push_back({t.type(), false, false, t});
      }
  for (int s = GEOARROW_TYPE_WKB; s <= GEOARROW_TYPE_LARGE_WKT; s++) o.push_back(serialized(s));
  return o;
}
static Bytes bytes_of(const void* p, size_t n) { return n ? Bytes((const uint8_t*)p, (const uint8_t*)p + n) : Bytes(); }

// Features with n members at each level
static std::vector<Feat> feats(const Type& t, int n, int members, bool null_) {
  static Values vals;
  vals = Values();
  std::vector<Feat> fs;
  for (int i = 0; i < n; i++) {
    Feat f;
    f.null = null_ && i == n - 1;
    if (!f.null) {
      Geom g = mk(t.nt.geometry_type, t.nt.dims);
      auto seq = [&](int k) {
        std::vector<C4> s;
        for (int j = 0; j < k; j++) s.push_back(vals.c());
        return s;
      };
      auto line = [&](int k) {
        Geom l = mk(T_LINESTRING, t.nt.dims);
        l.coords = seq(k);
        return l;
      };
      switch (t.nt.geometry_type) {
        case 1:
        case 990: g.coords = seq(1); break;
        case 2: g.coords = seq(members + i); break;
        case 3: g.rings = {seq(members), seq(1)}; break;
        case 4:
          for (int j = 0; j < members; j++) {
            Geom p = mk(T_POINT, t.nt.dims);
            p.coords = seq(1);
            g.parts.push_back(p);
          }
          break;
        case 5: g.parts = {line(members), line(0), line(2)}; break;
        default: {
          Geom p = mk(T_POLYGON, t.nt.dims);
          p.rings = {seq(members), seq(1)};
          Geom q = mk(T_POLYGON, t.nt.dims);
          q.rings = {seq(2)};
          g.parts = {p, q};
        }
      }
      f.g = g;
    }
    fs.push_back(f);
  }
  return fs;
}
static Content content(const Type& t, int n, int members, bool null_) {
  Content c;
  if (t.serialized) {
    c.length = n;
    Bytes val;
    std::string data;
    std::vector<int64_t> off{0};
    uint8_t bits = 0;
    for (int i = 0; i < n; i++) {
      if (!(null_ && i == n - 1)) data += std::string((size_t)(members + i), (char)('a' + i)), bits |= (uint8_t)(1 << i);
      off.push_back((int64_t)data.size());
    }
    if (null_) val.push_back(bits);
    c.b.push_back(val);
    c.unit = {1, t.large ? 8 : 4, 1};
    c.n_off = 1;
    Bytes o;
    for (auto x : off) {
      if (t.large) {
        auto y = bytes_of(&x, 8);
        o.insert(o.end(), y.begin(), y.end());
      } else {
        int32_t z = (int32_t)x;
        auto y = bytes_of(&z, 4);
        o.insert(o.end(), y.begin(), y.end());
      }
    }
    c.b.push_back(o);
    c.b.push_back(bytes_of(data.data(), data.size()));
    return c;
  }
  if (t.nt.geometry_type == T_BOX) {
    int nd = kND[t.nt.dims] * 2;
    c.length = n;
    c.b.push_back(null_ ? Bytes(1, (uint8_t)((1 << (n - 1)) - 1)) : Bytes());
    c.unit.push_back(1);
    for (int j = 0; j < nd; j++) {
      std::vector<double> d;
      for (int i = 0; i < n; i++) d.push_back(100 * j + i);
      c.b.push_back(bytes_of(d.data(), d.size() * 8));
      c.unit.push_back(8);
    }
    return c;
  }
  Owned o;
  build_native(t.nt, feats(t, n, members, null_), {}, o);
  const ArrowArray* a = &o.a;
  c.length = a->length;
  c.b.push_back(null_ ? bytes_of(a->buffers[0], (size_t)(n + 7) / 8) : Bytes());
  c.unit.push_back(1);
  c.n_off = n_offsets(t.nt.geometry_type);
  for (int i = 0; i < c.n_off; i++) {
    c.b.push_back(bytes_of(a->buffers[1], (size_t)(a->length + 1) * 4));
    c.unit.push_back(4);
    a = a->children[0];
  }
  for (int64_t i = 0; i < a->n_children; i++) {
    c.b.push_back(bytes_of(a->children[i]->buffers[1], (size_t)a->children[i]->length * 8));
    c.unit.push_back(8);
  }
  return c;
}

struct Owner {
  uint8_t* data;
  int64_t size;
  int freed = 0;
  bool given = false, nowhere = false;
};
static int g_bad_free;
static void owner_free(uint8_t* p, int64_t size, void* pd) {
  Owner* o = (Owner*)pd;
  if (p != o->data || size != o->size || o->freed) g_bad_free++;
  o->freed++;
  free(p);
}

struct Builder {
  GeoArrowBuilder b;
  int rc;
  bool open;
  explicit Builder(int type) {
    memset(&b, 0x55, sizeof b);
    rc = GeoArrowBuilderInitFromType(&b, (GeoArrowType)type);
    op();
    open = rc == 0;
  }
  ~Builder() {
    if (open) GeoArrowBuilderReset(&b);
  }
  Builder(const Builder&) = delete;
};

// One builder with the model of what was appended to it.
struct Run {
  Type t;
  Builder b;
  Content c;            // what the batch is to contain
  std::vector<size_t> pos;  // bytes of it that were appended
  int64_t coords = 0;   // coordinates appended as coordinates
  bool by_coord;
  std::list<Owner> owners;
  std::vector<Owner*> held;
  std::string log;
  GeoArrowError err;

  Run(const Type& ty, bool byc) : t(ty), b(ty.type), by_coord(byc) {
    if (b.rc) fail("init", fmt("no builder for type %d", ty.type));
    g_bad_free = 0;
    memset(&err, 0, sizeof err);
  }
  ~Run() {
    for (auto& o : owners)
      if (!o.given) free(o.data);
  }
  void begin(const Content& x) {
    c = x;
    pos.assign(c.b.size(), 0);
    held.assign(c.b.size(), nullptr);
    coords = 0;
    if ((int64_t)c.b.size() != b.b.view.n_buffers) fail("buffers", what() + fmt(": %ld buffers instead of %zu", (long)b.b.view.n_buffers, c.b.size()));
    if (b.b.view.n_offsets != c.n_off) fail("buffers", what() + fmt(": %d offsets", b.b.view.n_offsets));
  }
  std::string what() const { return fmt("type %d: ", t.type) + log; }
  int first_coord() const { return 1 + c.n_off; }
  bool is_coord(int i) const { return !t.serialized && i >= first_coord(); }
  int n_coord_buffers() const { return (int)c.b.size() - first_coord(); }
  int64_t n_coords() const {
    if (t.serialized) return 0;
    int64_t n = (int64_t)c.b.back().size() / 8;
    return t.nt.interleaved ? n / kND[t.nt.dims] : n;
  }
  bool done() const {
    for (size_t i = 0; i < c.b.size(); i++)
      if (!(by_coord && is_coord((int)i)) && pos[i] < c.b[i].size()) return false;
    return !by_coord || coords == n_coords();
  }
  // What the builder holds so far has to be what was appended.
  void check() {
    auto& v = b.b.view;
    for (size_t i = 0; i < c.b.size(); i++) {
      auto& buf = v.buffers[i];
      if (by_coord && is_coord((int)i)) continue;
      if (buf.size_bytes != (int64_t)pos[i]) fail("size", what() + fmt(": buffer %zu has %ld bytes instead of %zu", i, (long)buf.size_bytes, pos[i]));
      if (buf.capacity_bytes < buf.size_bytes) fail("capacity", what() + fmt(": buffer %zu has capacity %ld", i, (long)buf.capacity_bytes));
      if (pos[i] && memcmp(buf.data.data, c.b[i].data(), pos[i])) fail("content", what() + fmt(": buffer %zu lost its content", i));
    }
    if (by_coord) {
      if (v.coords.size_coords != coords) fail("coords", what() + fmt(": %ld coordinates instead of %ld", (long)v.coords.size_coords, (long)coords));
      if (v.coords.capacity_coords < coords) fail("coords", what() + ": coordinate capacity");
      for (int64_t i = 0; i < coords; i++)
        for (int j = 0; j < v.coords.n_values; j++) {
          double x = v.coords.values[j][i * v.coords.coords_stride], y;
          size_t at = t.nt.interleaved ? (size_t)(i * v.coords.n_values + j) * 8 : (size_t)i * 8;
          memcpy(&y, c.b[(size_t)first_coord() + (t.nt.interleaved ? 0 : (size_t)j)].data() + at, 8);
          if (memcmp(&x, &y, 8)) fail("coords", what() + fmt(": coordinate %ld", (long)i));
        }
    }
  }
  // Append the next n elements to a buffer, how: 0 checked, 1 reserved and unchecked, 2
  // as offsets, 3 as offsets reserved
  void append(int i, int64_t n, int how) {
    size_t bytes = std::min((size_t)n * (size_t)c.unit[(size_t)i], c.b[(size_t)i].size() - pos[(size_t)i]);
    Exact e(c.b[(size_t)i].data() + pos[(size_t)i], bytes);
    GeoArrowBufferView v;
    v.data = exact_ptr(e);
    v.size_bytes = (int64_t)bytes;
    op();
    int rc;
    if (how == 0) {
      rc = GeoArrowBuilderAppendBuffer(&b.b, i, v);
    } else if (how == 1) {
      rc = GeoArrowBuilderReserveBuffer(&b.b, i, v.size_bytes);
      if (!rc && !GeoArrowBuilderBufferCheck(&b.b, i, v.size_bytes)) fail("reserve", what() + ": no room after reserving");
      if (!rc && bytes) GeoArrowBuilderAppendBufferUnsafe(&b.b, i, v);
    } else {
      std::vector<int32_t> tmp(bytes / 4 + 1);
      memcpy(tmp.data(), v.data, bytes);
      if (how == 2) {
        rc = GeoArrowBuilderOffsetAppend(&b.b, i - 1, tmp.data(), (int64_t)bytes / 4);
      } else {
        rc = GeoArrowBuilderOffsetReserve(&b.b, i - 1, (int64_t)bytes / 4);
        if (!rc && !GeoArrowBuilderOffsetCheck(&b.b, i - 1, (int64_t)bytes / 4)) fail("reserve", what() + ": no room for offsets after reserving");
        if (!rc && bytes) GeoArrowBuilderOffsetAppendUnsafe(&b.b, i - 1, tmp.data(), (int64_t)bytes / 4);
      }
    }
    log += fmt(" append%d(%d,%zu)", how, i, bytes);
    if (rc) fail("append", what() + fmt(" gives %d", rc));
    pos[(size_t)i] += bytes;
    check();
  }
  void append_coords(int64_t n, int how) {
    n = std::min(n, n_coords() - coords);
    int nd = t.nt.geometry_type == T_BOX ? kND[t.nt.dims] * 2 : kND[t.nt.dims];
    // from a sequence that is stored separately
    std::vector<std::vector<double>> src((size_t)nd);
    for (int64_t i = 0; i < n_coords(); i++)
      for (int j = 0; j < nd; j++) {
        double y;
        size_t at = t.nt.interleaved ? (size_t)(i * nd + j) * 8 : (size_t)i * 8;
        memcpy(&y, c.b[(size_t)first_coord() + (t.nt.interleaved ? 0 : (size_t)j)].data() + at, 8);
        src[(size_t)j].push_back(y);
      }
    GeoArrowCoordView cv;
    memset(&cv, 0, sizeof cv);
    cv.n_coords = n_coords();
    cv.n_values = nd;
    cv.coords_stride = 1;
    for (int j = 0; j < nd; j++) cv.values[j] = src[(size_t)j].data();
    op();
    int rc;
    if (how == 0) {
      rc = GeoArrowBuilderCoordsAppend(&b.b, &cv, (GeoArrowDimensions)t.nt.dims, coords, n);
    } else {
      rc = GeoArrowBuilderCoordsReserve(&b.b, n);
      if (!rc && !GeoArrowBuilderCoordsCheck(&b.b, n)) fail("reserve", what() + ": no room for coordinates after reserving");
      if (!rc) GeoArrowBuilderCoordsAppendUnsafe(&b.b, &cv, (GeoArrowDimensions)t.nt.dims, coords, n);
    }
    log += fmt(" coords%d(%ld)", how, (long)n);
    if (rc) fail("append", what() + fmt(" gives %d", rc));
    coords += n;
    check();
  }
  void reserve(int i, int64_t elements) {
    int64_t bytes = elements * c.unit[(size_t)i];
    op();
    int rc = GeoArrowBuilderReserveBuffer(&b.b, i, bytes);
    log += fmt(" reserve(%d,%ld)", i, (long)bytes);
    if (rc) fail("reserve", what() + fmt(" gives %d", rc));
    if (!GeoArrowBuilderBufferCheck(&b.b, i, bytes)) fail("reserve", what() + ": no room after reserving");
    check();
  }
  void reserve_coords(int64_t n) {
    op();
    int rc = GeoArrowBuilderCoordsReserve(&b.b, n);
    log += fmt(" reserve_coords(%ld)", (long)n);
    if (rc) fail("reserve", what() + fmt(" gives %d", rc));
    if (!GeoArrowBuilderCoordsCheck(&b.b, n)) fail("reserve", what() + ": no room after reserving");
    check();
  }
  // Hand over a buffer with the complete content
  void set_owned(int i) {
    owners.emplace_back();
    Owner* o = &owners.back();
    o->size = (int64_t)c.b[(size_t)i].size();
    // an empty buffer may have no address, and may be freed at any time
    o->nowhere = !o->size && vf::flip();
    o->data = o->nowhere ? nullptr : (uint8_t*)malloc(o->size ? (size_t)o->size : 1);
    if (o->size) memcpy(o->data, c.b[(size_t)i].data(), (size_t)o->size);
    GeoArrowBufferView v;
    v.data = o->data;
    v.size_bytes = o->size;
    Owner* prev = held[(size_t)i];
    op();
    int rc = GeoArrowBuilderSetOwnedBuffer(&b.b, i, v, owner_free, o);
    log += fmt(" own(%d)", i);
    if (rc) fail("own", what() + fmt(" gives %d", rc));
    o->given = true;
    held[(size_t)i] = o;
    pos[(size_t)i] = c.b[(size_t)i].size();
    if (o->freed && !o->nowhere) fail("own", what() + ": freed at once");
    if (prev && prev->freed != 1) fail("own", what() + fmt(": the earlier buffer was freed %d times", prev->freed));
    check();
  }
  void bad_owned() {
    for (int64_t i : {(int64_t)-1, (int64_t)c.b.size(), (int64_t)9, (int64_t)1 << 40}) {
      Owner o;
      o.data = (uint8_t*)malloc(8);
      o.size = 8;
      GeoArrowBufferView v;
      v.data = o.data;
      v.size_bytes = 8;
      op();
      int rc = GeoArrowBuilderSetOwnedBuffer(&b.b, i, v, owner_free, &o);
      if (!rc) fail("own", what() + fmt(": buffer %ld accepted", (long)i));
      if (o.freed) fail("own", what() + ": freed after an error");
      free(o.data);
    }
  }
  void frees(int n) {
    if (g_bad_free) fail("free", what() + ": freed twice or with other arguments");
    for (auto* o : held)
      if (o && o->freed != n && !(o->nowhere && !n)) fail("free", what() + fmt(": owned buffer freed %d times instead of %d", o->freed, n));
  }
  // Compare an array with the content
  void compare(const ArrowArray* a) {
    if (a->length != c.length || a->offset != 0) fail("length", what() + fmt(": length %ld offset %ld", (long)a->length, (long)a->offset));
    auto same = [&](const void* p, size_t i) {
      if (c.b[i].size() && (!p || memcmp(p, c.b[i].data(), c.b[i].size()))) fail("array", what() + fmt(": buffer %zu of the array", i));
    };
    int64_t nulls = 0;
    if (c.b[0].empty()) {
      if (a->buffers[0]) fail("array", what() + ": has a validity buffer");
    } else {
      for (int64_t i = 0; i < c.length; i++) nulls += !(c.b[0][(size_t)i / 8] >> (i % 8) & 1);
      same(a->buffers[0], 0);
    }
    if (a->null_count != -1 && a->null_count != nulls) fail("array", what() + fmt(": null count %ld", (long)a->null_count));
    if (t.serialized) {
      if (a->n_buffers != 3 || a->n_children) fail("array", what() + ": structure");
      same(a->buffers[1], 1);
      same(a->buffers[2], 2);
      return;
    }
    size_t i = 1;
    int64_t len = a->length;
    for (int l = 0; l < c.n_off; l++, i++) {
      if (a->n_buffers != 2 || a->n_children != 1) fail("array", what() + ": structure");
      same(a->buffers[1], i);
      a = a->children[0];
      // the last offset
      int32_t last = 0;
      if (c.b[i].size()) memcpy(&last, c.b[i].data() + c.b[i].size() - 4, 4);
      len = last;
      if (a->length != len || a->offset || a->buffers[0]) fail("array", what() + fmt(": level %d has length %ld instead of %ld", l, (long)a->length, (long)len));
    }
    if (a->n_buffers != 1 || a->n_children != n_coord_buffers()) fail("array", what() + ": structure");
    for (int64_t k = 0; k < a->n_children; k++, i++) {
      ArrowArray* x = a->children[k];
      int64_t want = t.nt.interleaved ? len * kND[t.nt.dims] : len;
      if (x->length != want || x->offset || x->buffers[0] || x->n_buffers != 2) fail("array", what() + fmt(": coordinate child of length %ld instead of %ld", (long)x->length, (long)want));
      same(x->buffers[1], i);
    }
  }
  void reset() {
    op();
    GeoArrowBuilderReset(&b.b);
    b.open = false;
    if (b.b.private_data) fail("reset", what() + ": not reset");
    log += " reset";
    frees(1);
  }
  bool finish(ArrowArray* out) {
    op();
    int rc = GeoArrowBuilderFinish(&b.b, out, &err);
    log += fmt(" finish=%d", rc);
    return rc == 0;
  }
};

// Finishing, with what may come before and after
static void end(Run& r, Owned& o) {
  bool good = r.finish(&o.a);
  if (!good) fail("finish", r.what() + " fails: " + r.err.message);
  r.compare(&o.a);
  r.frees(0);
}

static const std::vector<Type>& deep_types() {
  static std::vector<Type> v = {
      {GEOARROW_TYPE_POINT, false, false, {1, 1, false}},      {GEOARROW_TYPE_INTERLEAVED_POINT_Z, false, false, {1, 2, true}}, {GEOARROW_TYPE_LINESTRING, false, false, {2, 1, false}},
      {GEOARROW_TYPE_INTERLEAVED_LINESTRING, false, false, {2, 1, true}}, {GEOARROW_TYPE_INTERLEAVED_POLYGON_M, false, false, {3, 3, true}},
      {GEOARROW_TYPE_BOX, false, false, {990, 1, false}}, serialized(GEOARROW_TYPE_WKB), serialized(GEOARROW_TYPE_LARGE_WKT)};
  return v;
}

// Every sequence of steps on a builder.
static void steps() {
  const Type& t = deep_types()[(size_t)choose((int)deep_types().size())];
  bool by_coord = !t.serialized && t.nt.geometry_type != T_BOX && choose(2);
  Run r(t, by_coord);
  std::vector<std::unique_ptr<Owned>> arrays;
  std::vector<Content> built;
  int depth = 0;  // set by the number of buffers
  // a batch of two features, the second being null
  bool has_null = choose(2);
  int style = vf::thorough() ? -1 : choose(3);  // one kind of append in the quick check
  auto kind = [&](int n) { return style >= 0 ? std::min(style, n - 1) : choose(n); };
  r.begin(content(t, 2, 2, has_null));
  int finishes = 0;
  {
    size_t nb = by_coord ? (size_t)r.first_coord() + 1 : r.c.b.size();
    depth = (nb <= 2 ? 6 : nb == 3 ? 5 : 4) + (vf::thorough() ? 1 : 0);
  }
  for (int d = 0; d < depth; d++) {
    int nb = (int)r.c.b.size();
    int k = choose(5);
    note("step %d: %d", d, k);
    if (k == 0) break;
    if (k == 1) {
      // only complete batches are certain to be finished
      vf::assume(r.done());
      arrays.emplace_back(new Owned);
      end(r, *arrays.back());
      built.push_back(r.c);
      if (++finishes == 2) break;
      r.begin(content(t, 1, 3, has_null));
      r.check();
      continue;
    }
    int i = by_coord ? choose(r.first_coord() + 1) : choose(nb);
    bool coords = by_coord && r.is_coord(i);
    if (k == 2) {
      vf::assume(!(d > 0 && r.log.size() > 9 && r.log.find("reserve", r.log.rfind(' ')) != std::string::npos));
      if (coords) r.reserve_coords(3);
      else r.reserve(i, 3);
    } else {
      // a part or the rest
      int how = k == 3 ? 0 : 1;
      if (coords) {
        vf::assume(r.coords < r.n_coords());
        r.append_coords(how ? 1000 : 1, kind(2));
      } else {
        vf::assume(r.pos[(size_t)i] < r.c.b[(size_t)i].size());
        bool off = i >= 1 && i <= r.c.n_off && !t.large;
        r.append(i, how ? 1000 : 1, off ? (style == 1 ? 3 : kind(4)) : kind(2));
      }
    }
  }
  vf::state(vf::hash_str(r.what()));
  bool first = choose(2);
  if (first) r.reset();
  for (size_t i = 0; i < arrays.size(); i++) {
    Content keep = r.c;
    r.c = built[i];
    r.compare(&arrays[i]->a);
    r.c = keep;
  }
}

// Externally owned buffers, in every order, replaced, finished or not.
static void owned() {
  static const std::vector<Type> types = all_types();
  const Type& t = types[(size_t)choose((int)types.size())];
  Run r(t, false);
  r.begin(content(t, 2, choose(2) * 2, choose(2)));
  int nb = (int)r.c.b.size();
  bool validity = !r.c.b[0].empty();
  // order: rotations and reversals, or every order of up to four buffers
  std::vector<int> order;
  for (int i = validity ? 0 : 1; i < nb; i++) order.push_back(i);
  if (order.size() <= (vf::thorough() ? 5u : 3u)) {
    std::vector<int> left = order;
    order.clear();
    while (!left.empty()) {
      int k = choose((int)left.size());
      order.push_back(left[(size_t)k]);
      left.erase(left.begin() + k);
    }
  } else {
    std::rotate(order.begin(), order.begin() + choose((int)order.size()), order.end());
    if (choose(2)) std::reverse(order.begin(), order.end());
  }
  int again = choose((int)order.size() + 1);  // this one is replaced
  int stop = choose(3);                       // 0: all, 1: all but the last, 2: only the first
  size_t n = stop == 0 ? order.size() : stop == 1 ? order.size() - 1 : 1;
  for (size_t i = 0; i < n; i++) {
    r.set_owned(order[i]);
    if ((int)i == again) r.set_owned(order[i]);
  }
  r.bad_owned();
  if (stop) {
    // nothing was finished: the builder owns the buffers
    int k = choose(2);
    r.frees(0);
    if (k) r.reset();
    else {
      Owned o;
      bool good = r.finish(&o.a);
      if (!good && o.a.release) fail("finish", r.what() + ": failed with an array");
      o.reset();
      r.reset();
    }
  } else {
    Owned o;
    end(r, o);
    int k = choose(3);
    if (k == 0) {
      // the array outlives the builder
      GeoArrowBuilderReset(&r.b.b);
      r.b.open = false;
      r.frees(0);
      r.compare(&o.a);
      o.reset();
      r.frees(1);
    } else {
      if (k == 1) o.reset(), r.frees(1);
      else r.frees(0);
      // a second batch
      auto first = r.held;
      Content c1 = r.c;
      r.begin(content(t, 1, 3, false));
      for (int i = 1; i < nb; i++) r.set_owned(i);
      Owned o2;
      end(r, o2);
      auto second = r.held;
      if (k == 2) {
        r.held = first;
        std::swap(c1, r.c);
        r.compare(&o.a);
        std::swap(c1, r.c);
        r.frees(0);
        r.held = second;
      }
      o2.reset();
      r.frees(1);
      o.reset();
      r.held = first;
      r.frees(1);
    }
  }
  vf::state(vf::hash_str(r.what()));
}

// Growth over capacity boundaries: sequences of chunk sizes with reserves in between, on
// all types.
static void growth() {
  static const std::vector<Type> types = all_types();
  const Type& t = types[(size_t)choose((int)types.size())];
  bool by_coord = !t.serialized && t.nt.geometry_type != T_BOX && choose(2);
  Run r(t, by_coord);
  static const int kN[] = {1, 2, 7, 8, 9, 64, 300};
  int batches = 1 + choose(2);
  std::vector<std::unique_ptr<Owned>> arrays;
  for (int bi = 0; bi < batches; bi++) {
    r.begin(content(t, bi ? 3 : 7, bi ? 2 : 20, true));
    int pattern[3] = {kN[choose(vf::thorough() ? 7 : bi ? 3 : 6)], kN[choose(vf::thorough() ? 7 : 3)], vf::thorough() ? kN[choose(7)] : 3};
    int mode = choose(bi && !vf::thorough() ? 1 : 3);
    for (int step = 0; !r.done(); step++) {
      int64_t n = pattern[step % 3];
      if (mode == 2 && step == 1) {
        if (by_coord) r.reserve_coords(50);
        r.reserve(0, 50);
      }
      for (int i = 0; i < (by_coord ? r.first_coord() : (int)r.c.b.size()); i++)
        if (r.pos[(size_t)i] < r.c.b[(size_t)i].size()) r.append(i, n, mode == 1 ? 1 : (i >= 1 && i <= r.c.n_off && !t.large ? 2 : 0));
      if (by_coord && r.coords < r.n_coords()) r.append_coords(n, mode == 1);
    }
    arrays.emplace_back(new Owned);
    end(r, *arrays.back());
  }
  vf::state(vf::hash_str(r.what()));
}

// Partly appended content: finishing gives an error or a valid array, and the builder can
// go on or be reset.
static void partial() {
  static const std::vector<Type> types = all_types();
  const Type& t = types[(size_t)choose((int)types.size())];
  bool by_coord = !t.serialized && t.nt.geometry_type != T_BOX && choose(2);
  Run r(t, by_coord);
  r.begin(content(t, 2, 2, choose(2)));
  int nb = by_coord ? r.first_coord() : (int)r.c.b.size();
  for (int i = 0; i < nb; i++) {
    if (r.c.b[(size_t)i].empty()) continue;
    int n = (int)(r.c.b[(size_t)i].size() / (size_t)r.c.unit[(size_t)i]);
    int k = i > 2 && !vf::thorough() ? choose(2) * n : choose(3);
    if (k == 1) k = n / 2;
    if (k == 2) k = n;
    if (k) r.append(i, k, 0);
  }
  if (by_coord) {
    int k = choose(3);
    if (k) r.append_coords(k == 2 ? 1000 : 1, 0);
  }
  bool full = r.done();
  Owned o;
  bool good = r.finish(&o.a);
  if (full && !good) fail("finish", r.what() + " fails: " + r.err.message);
  if (!good && o.a.release) fail("finish", r.what() + ": failed with an array");
  if (!good && !r.err.message[0]) fail("message", r.what() + ": no error message");
  if (good) {
    // it has to be valid in the sense of its own offsets
    if (!o.a.release) fail("finish", r.what() + ": no array");
    if (full) r.compare(&o.a);
    else
      try {
        if (t.serialized) decode_serialized(&o.a);
        else if (t.nt.geometry_type == T_BOX) decode_box(t.nt.dims, &o.a);
        else decode_native(t.nt, &o.a);
      } catch (Invalid& e) {
        fail("invalid", r.what() + ": the array is invalid: " + e.why);
      }
  } else if (choose(2)) {
    // complete the content
    for (int i = 0; i < nb; i++)
      if (r.pos[(size_t)i] < r.c.b[(size_t)i].size()) r.append(i, 1000, 0);
    if (by_coord && r.coords < r.n_coords()) r.append_coords(1000, 0);
    end(r, o);
  }
  vf::state(vf::hash_str(r.what()));
}

// Coordinates of other dimensions are mapped by name.
static void dimensions() {
  int g = 1 + choose(6), sd = 1 + choose(4), dd = 1 + choose(4);
  bool inter = choose(2);
  NType nt{g, dd, inter};
  Builder b(nt.type());
  if (b.rc) fail("init", "no builder");
  int stride = choose(3), n = choose(4), off = choose(3);
  std::string what = fmt("type %d: coordinates of dimensions %d stride %d offset %d n %d", nt.type(), sd, stride, off, n);
  std::vector<double> src;
  int st = stride == 0 ? 1 : stride == 1 ? kND[sd] : 7;
  int total = n + off;
  std::vector<std::vector<double>> sep(4);
  GeoArrowCoordView cv;
  memset(&cv, 0, sizeof cv);
  cv.n_coords = total;
  cv.n_values = kND[sd];
  cv.coords_stride = st;
  Exact store(nullptr, 0);
  std::vector<double> buf((size_t)(total * st + 8) * 4, -1);
  for (int j = 0; j < kND[sd]; j++) {
    size_t base = stride == 0 ? (size_t)(j * (total + 1)) : (size_t)j;
    cv.values[j] = buf.data() + base;
    for (int i = 0; i < total; i++) buf[base + (size_t)(i * st)] = 100 * j + i + 0.5;
  }
  int twice = 1 + choose(2);
  for (int w = 0; w < twice; w++) {
    op();
    if (GeoArrowBuilderCoordsAppend(&b.b, &cv, (GeoArrowDimensions)sd, off, n)) fail("append", what + " fails");
  }
  auto& v = b.b.view.coords;
  if (v.size_coords != n * twice) fail("size", what + fmt(": %ld coordinates", (long)v.size_coords));
  const char* dn[] = {"", "xy", "xyz", "xym", "xyzm"};
  for (int i = 0; i < n * twice; i++)
    for (int j = 0; j < kND[dd]; j++) {
      double got = v.values[j][i * v.coords_stride];
      const char* at = strchr(dn[sd], dn[dd][j]);
      double want = at ? 100 * (double)(at - dn[sd]) + off + i % n + 0.5 : NAN;
      if (at ? got != want : got == got) fail("value", what + fmt(": ordinate %d of coordinate %d is %g", j, i, got));
    }
  vf::state(vf::hash_str(what));
}

// Initialisation
static void init() {
  int block = choose(300);
  for (int i = 0; i < 200; i++) {
    int type = block < 220 ? -3000 + block * 200 + i : 97000 + (block - 220) * 200 + i;
    bool native = false;
    for (auto& t : all_types()) native = native || t.type == type;
    Builder b(type);
    if ((b.rc == 0) != native) {
      if (native) fail("init", fmt("no builder for type %d", type));
      fail("init", fmt("builder for type %d", type));
    }
    // a failed initialisation can be reset
    GeoArrowBuilderReset(&b.b);
    b.open = false;
    if (native || type >= 100000) {
      OwnedSchema s;
      if (!GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type)) {
        GeoArrowBuilder x;
        memset(&x, 0x55, sizeof x);
        GeoArrowError err;
        op();
        int rc = GeoArrowBuilderInitFromSchema(&x, &s.s, &err);
        if ((rc == 0) != native) fail("init", fmt("builder from the schema of type %d gives %d", type, rc));
        if (!rc && x.view.schema_view.type != type) fail("init", fmt("builder from the schema of type %d has type %d", type, x.view.schema_view.type));
        GeoArrowBuilderReset(&x);
        // without extension
        OwnedSchema st;
        if (GeoArrowSchemaInit(&st.s, (GeoArrowType)type)) fail("init", "schema");
        op();
        if (!GeoArrowBuilderInitFromSchema(&x, &st.s, &err)) fail("init", fmt("builder from the storage of type %d", type));
        GeoArrowBuilderReset(&x);
      }
    }
    if (native) {
      // an empty batch
      Builder e(type);
      Owned o;
      GeoArrowError err;
      op();
      if (GeoArrowBuilderFinish(&e.b, &o.a, &err)) fail("empty", fmt("empty batch of type %d: %s", type, err.message));
      if (o.a.length) fail("empty", fmt("empty batch of type %d has length %ld", type, (long)o.a.length));
      vf::state((uint64_t)type);
    }
  }
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"steps", steps, true, "8 types x all sequences of up to 4 to 6 (5 to 7) reserves, appends of each kind and finishes"},
                    {"owned", owned, true, "56 types x orders of handing over buffers x replacing one x all endings"},
                    {"growth", growth, true, "56 types x by bytes or coordinates x chunk patterns over capacity boundaries x 1 or 2 batches"},
                    {"partial", partial, true, "56 types x every buffer empty, half or full x completing afterwards"},
                    {"dimensions", dimensions, true, "48 types x 4 source dimensions x strides x offsets x counts"},
                    {"init", init, true, "all type numbers from -3000 to 41000 and from 97000 to 113000"}});
}
