#include "../lib/h.h"
using namespace h;

static void read_and_check(GeoArrowWKTReader* r, const std::string& s, const char* what, const Geom* expect = nullptr) {
  Exact e(s.data(), s.size());
  Geom g;
  Verdict v = parse_wkt(s, g);
  if (expect && (v != V_OK || !geq(*expect, g)) && (v != V_MAY || !geq(*expect, g)))
    fail("harness", fmt("reference WKT parser and writer disagree: %s -> %s", s.substr(0, 500).c_str(), str(g).substr(0, 500).c_str()));
  Rec rec;
  rec.strict = v == V_OK;
  op();
  int rc = GeoArrowWKTReaderVisit(r, sv(e), &rec.v);
  op((uint64_t)rec.nev);
  if (vf::tracing())
    note("%s %s -> rc=%d %s; expected %s %s", what, quote(s).substr(0, 600).c_str(), rc,
         rec.feats.empty() ? "" : str(rec.feats[0]).substr(0, 600).c_str(),
         v == V_OK ? "ok" : v == V_ERR ? "error" : v == V_MAY ? "ok or error" : "unspecified", str(g).substr(0, 600).c_str());
  vf::state(vf::mix(vf::mix((uint64_t)rc, rec.h), ref::hash(rec.feats)));
  vf::raise_deferred();
  if (v == V_ANY) return;
  if (v == V_MAY && rc) return;
  if (v == V_ERR) {
    if (rc == 0) fail(fmt("%s:accepted", what), fmt("text that is not WKT accepted: %s", quote(s).substr(0, 600).c_str()));
    return;
  }
  if (rc != 0)
    fail(fmt("%s:rejected", what), fmt("valid WKT rejected (%d, %s): %s", rc, rec.err.message, quote(s).substr(0, 600).c_str()));
  rec.done();
  vf::raise_deferred();
  if (rec.feats.size() != 1 || rec.feats[0].null || !geq(rec.feats[0].g, g))
    fail(fmt("%s:value", what), fmt("read %s but %s denotes %s", str(rec.feats).substr(0, 600).c_str(), quote(s).substr(0, 600).c_str(),
                                     str(g).substr(0, 600).c_str()));
}

// Respells a text: a separator may stand between any two tokens.
static std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> t;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] == ' ') {
      i++;
      continue;
    }
    if (strchr("(),", s[i])) {
      t.push_back(std::string(1, s[i++]));
      continue;
    }
    size_t j = i;
    while (j < s.size() && !strchr(" (),", s[j])) j++;
    t.push_back(s.substr(i, j - i));
    i = j;
  }
  return t;
}
static bool punct(const std::string& t) { return t.size() == 1 && strchr("(),", t[0]); }
static std::string join(const std::vector<std::string>& t, int style) {
  static const char* sp[] = {"", " ", "\n", "\t", "\r", " \t\r\n "};
  std::string o = style >= 2 ? sp[style] : "";
  for (size_t i = 0; i < t.size(); i++) {
    if (i) {
      if (style >= 1) o += sp[style];
      else if (!punct(t[i - 1]) && !punct(t[i])) o += " ";
    }
    o += t[i];
  }
  if (style >= 1) o += sp[style];
  return o;
}

static int members(const Geom& g) {
  int n = (int)(g.coords.size() + g.rings.size() + g.parts.size());
  for (auto& r : g.rings) n += (int)r.size();
  for (auto& p : g.parts) n += members(p);
  return n;
}

static void sc_exact() {
  GenOpts go;
  go.budget = vf::thorough() ? 6 : 5;
  go.max_depth = 3;
  Geom g = gen_geom(go);
  WktOpts o;
  o.flat = flip();
  std::string s = wkt(g, o);
  // the largest trees in the writer's own and in the densest spelling only
  int style = choose(!vf::thorough() && members(g) >= 5 ? 2 : 7);
  if (style) s = join(tokens(s), style - 1);
  WktReader r;
  read_and_check(&r.r, s, "exact", &g);
}

// every sequence of tokens that can still become WKT, and every one-token
// departure from it
static void sc_tokens() {
  static const char* A[] = {"(", ")", ",", "1", "-2.5e1", "EMPTY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT",
                            "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "Z", "M", "ZM", "X"};
  int len = vf::thorough() ? 12 : 10;
  int style = choose(vf::thorough() ? 3 : 2);
  std::vector<std::string> t;
  std::string s;
  for (int i = 0; i < len; i++) {
    int k = choose(18);
    if (k == 17) break;
    t.push_back(A[k]);
    s = join(t, style == 2 ? 5 : style);
    if (wkt_dead(s)) {
      // one more token after the departure
      int m = choose(4);
      if (m) t.push_back(m == 1 ? ")" : m == 2 ? "1" : "EMPTY");
      s = join(t, style == 2 ? 5 : style);
      break;
    }
  }
  WktReader r;
  read_and_check(&r.r, s, "tokens");
}

static const std::vector<std::string>& texts() {
  static std::vector<std::string> t;
  if (t.empty()) {
    t = {"POINT (1 2)", "POINT ZM (1 2 3 4)", "POINT EMPTY", "POINT Z EMPTY", "LINESTRING M (1 2 3, 4 5 6)", "LINESTRING EMPTY",
         "POLYGON ((1 2, 3 4), (5 6))", "POLYGON (EMPTY, (1 2))", "MULTIPOINT (1 2, 3 4)", "MULTIPOINT ((1 2), (3 4))",
         "MULTIPOINT (EMPTY, (1 2))", "MULTIPOINT Z ((1 2 3), EMPTY)", "MULTILINESTRING ((1 2, 3 4), EMPTY)", "MULTIPOLYGON (((1 2), EMPTY), EMPTY)",
         "GEOMETRYCOLLECTION (POINT (1 2), GEOMETRYCOLLECTION (LINESTRING Z EMPTY))", "GEOMETRYCOLLECTION EMPTY",
         "MULTIPOINT (1 2, EMPTY, 3 4)", "MULTIPOINT (EMPTY, 1 2)", "  POINT\t(\n1\r2 ) ", "POINT(1e3 -.5)"};
  }
  return t;
}

static void sc_edit() {
  const std::string& b = texts()[choose((int)texts().size())];
  static const char C[] = "\0 \n(),12.-+eEZMPYnx\x80\xff\t\x0b;";
  const int nc = (int)sizeof(C) - 1;
  int kind = choose(4);
  std::string s = b;
  if (kind == 0) {
    s.erase((size_t)choose((int)b.size()), 1);
  } else if (kind == 1) {
    s[(size_t)choose((int)b.size())] = C[choose(nc)];
  } else if (kind == 2) {
    s.insert((size_t)choose((int)b.size() + 1), 1, C[choose(nc)]);
  } else {
    size_t i = (size_t)choose((int)b.size() - 1);
    std::swap(s[i], s[i + 1]);
  }
  if (vf::thorough() && flip()) {
    int k2 = choose(2);
    if (k2 == 0) s.erase((size_t)choose((int)s.size()), 1);
    else s.insert((size_t)choose((int)s.size() + 1), 1, C[choose(nc)]);
  }
  WktReader r;
  read_and_check(&r.r, s, "edit");
}

static void sc_truncate() {
  GenOpts go;
  go.budget = vf::thorough() ? 5 : 4;
  go.dims_mask = vf::thorough() ? 0x1E : 0x04;
  Geom g = gen_geom(go);
  WktOpts o;
  o.flat = flip();
  std::string s = wkt(g, o);
  std::string t = s.substr(0, (size_t)choose((int)s.size()));
  WktReader r;
  read_and_check(&r.r, t, "truncate");
  read_and_check(&r.r, s, "after-error", &g);
}

static void sc_trailing() {
  const std::string& b = texts()[choose((int)texts().size())];
  static const std::string tails[] = {" ", "\n\t\r ", ")", ",", "(", " EMPTY", " POINT (1 2)", "1", " 1 2", ";", std::string("\0", 1), std::string("\0x", 2),
                                      std::string(" \0 POINT (1 2)", 14), "x", " )", ", 5 6)", "(7 8)", "\xff"};
  std::string s = b + tails[choose(18)];
  if (flip()) s = tails[choose(18)] + s;
  WktReader r;
  read_and_check(&r.r, s, "trailing");
}

static void sc_long() {
  static const int ns[] = {1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 256, 257, 640};
  int dims = 1 + choose(4);
  int n = ns[choose(20)];
  int kind = choose(6);
  Values v;
  auto seq = [&](int k) {
    std::vector<C4> s;
    for (int i = 0; i < k; i++) s.push_back(v.c());
    return s;
  };
  Geom g;
  WktOpts o;
  if (kind == 0) {
    g = mk(T_LINESTRING, dims);
    g.coords = seq(n);
  } else if (kind == 1) {
    g = mk(T_POLYGON, dims);
    g.rings.push_back(seq(n));
    g.rings.push_back(seq(64));
    g.rings.push_back(seq(n));
  } else if (kind == 2) {
    g = mk(T_MULTILINESTRING, dims);
    for (int i = 0; i < 2; i++) {
      g.parts.push_back(mk(T_LINESTRING, dims));
      g.parts.back().coords = seq(n);
    }
  } else if (kind == 5) {
    g = mk(T_GC, dims);
    g.parts.push_back(mk(T_LINESTRING, dims));
    g.parts.back().coords = seq(n);
    g.parts.push_back(mk(T_POINT, dims));
    g.parts.back().coords = seq(1);
  } else {
    o.flat = kind == 3;
    g = mk(T_MULTIPOINT, dims);
    for (int i = 0; i < n; i++) {
      g.parts.push_back(mk(T_POINT, dims));
      g.parts.back().coords = seq(1);
    }
  }
  WktReader r;
  read_and_check(&r.r, wkt(g, o), "long", &g);
}

static void sc_nesting() {
  static const int ds[] = {1, 2, 3, 15, 28, 29, 30, 31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 20000, 300000, 3000000};
  int depth = ds[choose(24)];
  int leaf = choose(8);
  int form = choose(4);  // complete, unclosed, one closing missing, trailing closing
  std::string s;
  std::string open = depth > 1000 ? "GEOMETRYCOLLECTION(" : "GEOMETRYCOLLECTION Z (";
  for (int i = 0; i < depth; i++) s += open;
  Values v;
  Geom g = leaf == 0 ? mk(T_GC, depth > 1000 ? D_XY : D_XYZ) : shape(leaf, depth > 1000 ? D_XY : D_XYZ, leaf == T_GC ? 0 : 1, v);
  s += wkt(g, WktOpts());
  s += std::string(form == 1 ? 0 : form == 2 ? depth - 1 : form == 3 ? depth + 1 : depth, ')');
  WktReader r;
  if (depth <= 1000) {
    read_and_check(&r.r, s, "nesting");
  } else {
    Exact e(s.data(), s.size());
    GeoArrowVisitor vis;
    GeoArrowError err;
    GeoArrowVisitorInitVoid(&vis);
    vis.error = &err;
    op();
    int rc = GeoArrowWKTReaderVisit(&r.r, sv(e), &vis);
    note("depth %d form %d: rc %d", depth, form, rc);
    if (rc == 0 && form) fail("nesting:accepted", fmt("unbalanced nesting of depth %d accepted", depth));
  }
  read_and_check(&r.r, "POINT (30 10)", "after-nesting");
}

static void sc_number() {
  static const char* N[] = {"0", "-0", "1", "-1", "10", "007", "0.5", "-0.5", "1.25", "123456789.125", "0.1", "0.30000000000000004", "1e0", "1E5", "1e+5", "1e-5",
                            "1.5e300", "1e308", "4.9e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "9007199254740993", "123456789012345678901234567890",
                            "nan", "inf", "-inf", "NaN", "Infinity", "1.", ".5", "-.5", "+1", "0x10", "1e400", "1e-400", "", "-", ".", "e", "e5", "1e", "1e+", "1.5.", "1..5",
                            "--1", "1-", "1a", "1abc", "a1", "1.5e5x", "1e5.5", "1_0", "1'0", "1;2", "0b1", "1f", "1d", "1L", "nanx", "infx", "1\x80", "1e5e5", "-+1", "1-2",
                            "1.0000000000000000000000000000000000000000000000000000000000000001", "1.00000000000000000000000000000000000000000000000000000000000000",
                            "EMPTY", "Z", "M", "POINT", "1EMPTY"};
  const int n = sizeof N / sizeof *N;
  int slot = choose(6);
  std::string x = N[choose(n)];
  std::string a = "30", b = "-10.5";
  std::string s;
  switch (slot) {
    case 0: s = "POINT (" + x + " " + b + ")"; break;
    case 1: s = "POINT (" + a + " " + x + ")"; break;
    case 2: s = "LINESTRING M (1 2 3, 4 " + x + " 6)"; break;
    case 3: s = "MULTIPOINT (1 2, " + x + " 3)"; break;
    case 4: s = "MULTIPOINT ((1 2), (" + x + " 3))"; break;
    case 5: s = "POLYGON ZM ((1 2 3 4, 5 6 7 " + x + "))"; break;
  }
  int ws = choose(3);
  if (ws == 1) s = join(tokens(s), 5);
  if (ws == 2) s = join(tokens(s), 0);
  WktReader r;
  read_and_check(&r.r, s, "number");
}

static void sc_history() {
  static const char* T[] = {"POINT ZM (1 2 3 4)", "POLYGON ((1 2, 3 4), EMPTY)", "GEOMETRYCOLLECTION (POINT Z (1 2 3), LINESTRING (4 5))", "MULTIPOINT M (1 2 3, 4 5 6)",
                            "POINT EMPTY", "LINESTRING (1 2, 3 4, 5 x)", "POLYGON Z ((1 2 3, 4 5 6", "", "POINT (1 2) )"};
  WktReader r;
  int len = vf::thorough() ? 5 : 4;
  for (int i = 0; i < len; i++) read_and_check(&r.r, T[choose(9)], "history");
}

static void sc_array() {
  static const char* T[] = {"POINT (1 2)", "GEOMETRYCOLLECTION Z (POINT Z (1 2 3))", "MULTIPOINT (5 6, 7 8)", "LINESTRING (1 2, 3", "POINT (1 2)x"};
  int n = choose(vf::thorough() ? 5 : 4);
  std::vector<std::string> vals;
  std::vector<bool> valid;
  std::vector<Feat> exp;
  bool failed = false;
  for (int i = 0; i < n; i++) {
    int k = choose(6);
    Feat f;
    if (k == 5) {
      vals.push_back("");
      valid.push_back(false);
      f.null = true;
      if (!failed) exp.push_back(f);
      continue;
    }
    vals.push_back(T[k]);
    valid.push_back(true);
    if (k >= 3) failed = true;
    if (!failed) {
      parse_wkt(T[k], f.g);
      exp.push_back(f);
    }
  }
  NatOpts o;
  o.off[0] = choose(2) * 3;
  o.lead[0] = choose(2) * 5;
  bool large = flip();
  Owned a;
  build_serialized(vals, valid, o, a, large);
  ArrReader r(large ? GEOARROW_TYPE_LARGE_WKT : GEOARROW_TYPE_WKT);
  if (r.rc) fail("init", "reader init failed");
  Rec rec;
  op();
  int rc = GeoArrowArrayReaderSetArray(&r.r, &a.a, &rec.err);
  if (rc) fail("array:set", fmt("valid array rejected: %s", rec.err.message));
  op();
  rc = GeoArrowArrayReaderVisit(&r.r, 0, n, &rec.v);
  note("rows=%d failed=%d rc=%d got %s", n, (int)failed, rc, str(rec.feats).c_str());
  if (failed != (rc != 0)) fail("array:rc", fmt("row with invalid WKT: rc %d, expected %s", rc, failed ? "an error" : "success"));
  if (failed && rec.feats.size() > exp.size()) rec.feats.resize(exp.size());
  vf::state(vf::mix(rec.h, ref::hash(rec.feats)));
  vf::raise_deferred();
  if (!fseq(rec.feats, exp)) fail("array:value", fmt("got %s expected %s", str(rec.feats).c_str(), str(exp).c_str()));
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"exact", sc_exact, true, "trees with <=5 (thorough 6) members, depth<=3, all dims, flat/nested multipoints, 7 spacings"},
                    {"tokens", sc_tokens, true, "all live token sequences of <=10 (12) tokens over 17 tokens, and every departure by one or two tokens"},
                    {"edit", sc_edit, true, "20 texts x every deletion, transposition, replacement and insertion with 27 characters (thorough: two edits)"},
                    {"truncate", sc_truncate, true, "trees with <=4 (5) members x every strict prefix, then a valid read on the same reader"},
                    {"trailing", sc_trailing, true, "20 texts x 18 tails x 18 heads"},
                    {"long", sc_long, true, "sequence lengths at and around multiples of 32/64"},
                    {"nesting", sc_nesting, true, "24 depths up to 3000000 x 8 leaves x 4 closings"},
                    {"number", sc_number, true, "73 number spellings in 6 positions and 3 spacings"},
                    {"history", sc_history, true, "all sequences of 4 (5) reads from 9 inputs on one reader"},
                    {"array", sc_array, true, "all string and large string arrays with <=3 (4) rows from 3 texts, null, 2 invalid texts"}});
}
