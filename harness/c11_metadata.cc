// C11: extension metadata.
#include "h.h"
using namespace h;

// ------------------------------------------------------------ reference JSON
struct Json {
  const std::string& s;
  size_t i = 0;
  bool lax;  // nested values need only be balanced, strings only be terminated
  explicit Json(const std::string& t, bool l) : s(t), lax(l) {}
  void ws() {
    while (i < s.size() && strchr(" \t\n\r", s[i]) && s[i]) i++;
  }
  bool ch(char c) {
    if (i < s.size() && s[i] == c) {
      i++;
      return true;
    }
    return false;
  }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) o += (char)(0xC0 | c >> 6), o += (char)(0x80 | (c & 63));
    else if (c < 0x10000) o += (char)(0xE0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    else o += (char)(0xF0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
  }
  bool hex4(unsigned& c) {
    c = 0;
    for (int k = 0; k < 4; k++) {
      if (i >= s.size() || !isxdigit((unsigned char)s[i])) return false;
      c = c * 16 + (unsigned)strtol(std::string(1, s[i++]).c_str(), nullptr, 16);
    }
    return true;
  }
  bool str(std::string& out) {
    if (!ch('"')) return false;
    while (i < s.size()) {
      unsigned char c = (unsigned char)s[i++];
      if (c == '"') return true;
      if (c < 0x20 && !lax) return false;
      if (c != '\\') {
        out += (char)c;
        continue;
      }
      if (i >= s.size()) return false;
      c = (unsigned char)s[i++];
      if (lax) {
        out += (char)c;
        continue;
      }
      switch (c) {
        case '"':
        case '\\':
        case '/':
          out += (char)c;
          break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
          unsigned u;
          if (!hex4(u)) return false;
          if (u >= 0xD800 && u < 0xDC00 && s.compare(i, 2, "\\u") == 0) {
            size_t at = i;
            i += 2;
            unsigned lo;
            if (hex4(lo) && lo >= 0xDC00 && lo < 0xE000) u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
            else i = at;
          }
          utf8(out, u);
          break;
        }
        default:
          return false;
      }
    }
    return false;
  }
  bool lit(const char* w) {
    size_t n = strlen(w);
    if (s.compare(i, n, w)) return false;
    i += n;
    return true;
  }
  bool number() {
    ch('-');
    size_t k = i;
    if (!ch('0'))
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    if (i == k) return false;
    if (ch('.')) {
      k = i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i == k) return false;
    }
    if (ch('e') || ch('E')) {
      if (!ch('+')) ch('-');
      k = i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i == k) return false;
    }
    return true;
  }
  // kind: s string, { object, [ list, n null, 0 number or boolean
  bool value(char& kind) {
    if (i >= s.size()) return false;
    kind = s[i];
    std::string t;
    switch (s[i]) {
      case '"': kind = 's'; return str(t);
      case 'n': return lit("null");
      case '{': return lax ? balanced() : object(nullptr);
      case '[': return lax ? balanced() : list();
      case 't': kind = '0'; return lit("true");
      case 'f': kind = '0'; return lit("false");
      default: kind = '0'; return number();
    }
  }
  bool balanced() {
    std::string st;
    while (i < s.size()) {
      char c = s[i];
      std::string t;
      if (c == '"') {
        if (!str(t)) return false;
        continue;
      }
      i++;
      if (c == '\0') return false;
      if (c == '{' || c == '[') st += c;
      // a closing bracket of the other kind is skipped
      if ((c == '}' && st.back() == '{') || (c == ']' && st.back() == '[')) st.pop_back();
      if (st.empty()) return true;
    }
    return false;
  }
  bool list() {
    ch('[');
    ws();
    if (ch(']')) return true;
    for (;;) {
      ws();
      char k;
      if (!value(k)) return false;
      ws();
      if (ch(',')) continue;
      return ch(']');
    }
  }
  struct Member {
    std::string key, raw;
    char kind;
  };
  bool object(std::vector<Member>* m) {
    if (!ch('{')) return false;
    ws();
    if (ch('}')) return true;
    for (;;) {
      ws();
      Member x;
      if (!str(x.key)) return false;
      ws();
      if (!ch(':')) return false;
      ws();
      size_t a = i;
      if (!value(x.kind)) return false;
      x.raw = s.substr(a, i - a);
      if (m) m->push_back(x);
      ws();
      if (ch(',')) continue;
      return ch('}');
    }
  }
  bool doc(std::vector<Member>& m) {
    ws();
    if (!object(&m)) return false;
    ws();
    return i == s.size();
  }
};

struct Meta {
  int edges = GEOARROW_EDGE_TYPE_PLANAR, crs_type = GEOARROW_CRS_TYPE_NONE;
  std::string crs;  // as it stands in the text
};
static std::string str_of(const Meta& m) { return fmt("edges %d crs type %d crs ", m.edges, m.crs_type) + quote(m.crs); }

static const struct {
  const char* s;
  int v;
} kEdges[] = {{"planar", GEOARROW_EDGE_TYPE_PLANAR},     {"spherical", GEOARROW_EDGE_TYPE_SPHERICAL}, {"vincenty", GEOARROW_EDGE_TYPE_VINCENTY},
              {"thomas", GEOARROW_EDGE_TYPE_THOMAS},     {"andoyer", GEOARROW_EDGE_TYPE_ANDOYER},     {"karney", GEOARROW_EDGE_TYPE_KARNEY}},
  kCrsTypes[] = {{"projjson", GEOARROW_CRS_TYPE_PROJJSON}, {"wkt2:2019", GEOARROW_CRS_TYPE_WKT2_2019}, {"authority_code", GEOARROW_CRS_TYPE_AUTHORITY_CODE}, {"srid", GEOARROW_CRS_TYPE_SRID}};

// What the text means.
static Verdict meaning(const std::string& t, Meta& out) {
  if (t.empty()) return V_OK;
  std::vector<Json::Member> m;
  Json strict(t, false);
  if (!strict.doc(m)) {
    m.clear();
    Json lax(t, true);
    return lax.doc(m) ? V_ANY : V_ERR;
  }
  std::set<std::string> seen;
  bool any = false;
  Meta r;
  for (auto& x : m) {
    bool known = x.key == "edges" || x.key == "crs" || x.key == "crs_type";
    if (!seen.insert(x.key).second && known) any = true;
    // escaped spellings of the keys and values need not be recognised
    if (t.find('\\') != std::string::npos && known && t.find("\"" + x.key + "\"") == std::string::npos) any = true;
    if (x.kind == '0') any = true;  // numbers and booleans are not supported
    if (x.key == "edges") {
      bool ok = x.kind == 'n';
      if (ok) r.edges = GEOARROW_EDGE_TYPE_PLANAR;
      for (auto& e : kEdges)
        if (x.raw == "\"" + std::string(e.s) + "\"") r.edges = e.v, ok = true;
      if (!ok) {
        if (x.raw.find('\\') != std::string::npos) any = true;
        else if (x.kind != '0') return any ? V_ANY : V_ERR;
      }
    } else if (x.key == "crs") {
      if (x.kind == '[' || x.kind == '0') return V_ERR;
      r.crs = x.kind == 'n' ? "" : x.raw;
    } else if (x.key == "crs_type") {
      if (x.kind != 's') return V_ERR;
      r.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
      for (auto& e : kCrsTypes)
        if (x.raw == "\"" + std::string(e.s) + "\"") r.crs_type = e.v;
      if (x.raw.find('\\') != std::string::npos) any = true;
    }
  }
  if (any) return V_ANY;
  if (r.crs.empty()) r.crs_type = GEOARROW_CRS_TYPE_NONE;
  else if (r.crs_type == GEOARROW_CRS_TYPE_NONE) r.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
  out = r;
  return V_OK;
}

static int view(const std::string& t, const Exact& e, Meta& out, GeoArrowError* err) {
  GeoArrowMetadataView v;
  memset(&v, 0x55, sizeof v);
  op();
  GeoArrowStringView sv_ = sv(e);
  int rc = GeoArrowMetadataViewInit(&v, sv_, err);
  if (rc) return rc;
  out.edges = v.edge_type;
  out.crs_type = v.crs_type;
  if (v.crs.size_bytes < 0) fail("range", "negative CRS size");
  if (v.crs_type == GEOARROW_CRS_TYPE_NONE) {
    out.crs = "";
  } else {
    if (v.crs.size_bytes && (v.crs.data < sv_.data || v.crs.data + v.crs.size_bytes > sv_.data + t.size()))
      fail("range", "the CRS of " + quote(t) + " is not inside of the text");
    out.crs.assign(v.crs.data ? v.crs.data : "", (size_t)v.crs.size_bytes);
  }
  return 0;
}
static void check(const std::string& t) {
  Meta want, got;
  Verdict w = meaning(t, want);
  Exact e(t.data(), t.size());
  GeoArrowError err;
  memset(&err, 0, sizeof err);
  int rc = view(t, e, got, choose(1) ? nullptr : &err);
  if (w == V_ERR && !rc) fail("accepted", quote(t) + " is accepted as " + str_of(got));
  if (w == V_OK && rc) fail("rejected", quote(t) + fmt(" is rejected with code %d: %s", rc, err.message));
  if (w == V_OK && str_of(want) != str_of(got)) fail("value", quote(t) + " is parsed as " + str_of(got) + " instead of " + str_of(want));
  if (rc == 0) vf::state(vf::hash_str(str_of(got)));
}

// All sequences of tokens.
static void tokens() {
  static const char* T[] = {"{", "}", "[", "]", ":", ",", "\"crs\"", "\"edges\"", "null", "\"x\"", " ", "\"", "\\", "7", "\"crs_type\"", "\"spherical\"", "\"srid\"", "true"};
  int nt = vf::thorough() ? 18 : 12, len = vf::thorough() ? 8 : 8;
  std::string s;
  int n = choose(len - 1);
  for (int i = 0; i < n; i++) {
    // most texts have to begin as an object to say anything
    s += i == 0 && n > 4 ? "{" : T[choose(nt)];
  }
  note("%s", s.c_str());
  check(s);
  if (n == len - 2) {
    for (int i = 0; i < nt; i++) {
      check(s + T[i]);
      for (int j = 0; j < nt; j++) check(s + T[i] + T[j]);
    }
  }
}

static std::string object() {
  // an ordered selection of up to 4 members
  static const char* K[] = {"\"edges\"", "\"crs_type\"", "\"crs\"", "\"other\"", "\"crs_typ\"", "\"edge\""};
  static const char* VE[] = {"\"planar\"", "\"spherical\"", "\"vincenty\"", "\"thomas\"", "\"andoyer\"", "\"karney\"", "null", "\"Spherical\"", "\"spherica\"", "{}"};
  static const char* VT[] = {"\"projjson\"", "\"wkt2:2019\"", "\"authority_code\"", "\"srid\"", "\"abcdefgh\"", "\"x\"", "null"};
  static const char* VC[] = {"\"EPSG:4326\"", "{}", "null", "\"a \\\"q\\\" \\\\\"", "{\"a\": [1, {\"}\": \"]\"}], \"b\": \"\\\"}\"}", "\"\"", "[]", "\"}{][,:\""};
  static const char* VO[] = {"\"edges\"", "[[], [{}], \"]\"]", "{\"crs\": \"inner\"}", "null", "\"crs\""};
  int n = choose(4);
  std::string order;
  int used = 0;
  static const char* W[] = {"", " ", "\n\t", "\r  "};
  int w = choose(vf::thorough() ? 4 : 3);
  std::string sp = W[w];
  std::string s = sp + "{" + sp;
  for (int i = 0; i < n; i++) {
    int k = choose(vf::thorough() ? 6 : 5);
    vf::assume(!(used & (1 << k)));
    used |= 1 << k;
    if (i) s += "," + sp;
    s += std::string(K[k]) + sp + ":" + sp;
    switch (k) {
      case 0: s += VE[choose(n == 1 || vf::thorough() ? 10 : 4)]; break;
      case 1: s += VT[choose(n < 3 || vf::thorough() ? 7 : 5)]; break;
      case 2: s += VC[choose(n < 3 || vf::thorough() ? 8 : 5)]; break;
      default: s += VO[choose(n < 3 || vf::thorough() ? 5 : 3)];
    }
    s += sp;
  }
  return s + "}" + sp;
}
static void objects() {
  std::string s = object();
  note("%s", s.c_str());
  check(s);
  for (size_t i = 0; i < s.size(); i++) check(s.substr(0, i));
  for (auto m : {"x", "{", "}", ",", "\"", " x", "{}"}) check(s + m), check(m + s);
}
// Every single edit of a few texts.
static void edits() {
  static const char* T[] = {"{\"edges\":\"spherical\",\"crs_type\":\"projjson\",\"crs\":{\"a\":[1,\"b\"]}}", "{\"crs\": \"EPSG:4326\", \"other\": [[], {\"x\": null}], \"edges\": null}",
                            "{\"crs_type\": \"srid\" , \"crs\" : \"0\\\\\\\"\" }"};
  std::string s = T[choose(3)];
  int kind = choose(3);
  size_t at = (size_t)choose((int)s.size() + 1);
  static const char C[] = "{}[]\":,\\ nx7\0\x80";
  if (kind == 0) {
    vf::assume(at < s.size());
    s.erase(at, 1);
  } else {
    char c = C[choose(14)];
    if (kind == 1) s.insert(at, 1, c);
    else {
      vf::assume(at < s.size());
      s[at] = c;
    }
  }
  note("%s", s.c_str());
  check(s);
  // and a second deletion
  for (size_t i = 0; i < s.size(); i++) check(s.substr(0, i) + s.substr(i + 1));
}

// ---------------------------------------------------------------- serialising
static void check_serialize(const Meta& m, const std::string& crs, const std::string& want_text) {
  GeoArrowMetadataView v;
  memset(&v, 0, sizeof v);
  v.edge_type = (GeoArrowEdgeType)m.edges;
  v.crs_type = (GeoArrowCrsType)m.crs_type;
  Exact ec(crs.data(), crs.size());
  v.crs = sv(ec);
  std::string what = fmt("metadata with edges %d crs type %d crs ", m.edges, m.crs_type) + quote(crs);
  op();
  int64_t size = GeoArrowMetadataSerialize(&v, nullptr, 0);
  if (size < 2 || size > 10000) fail("size", what + fmt(" has size %ld", (long)size));
  std::string text;
  for (int64_t n = 0; n <= size + 2; n++) {
    if (n > 3 && n < size - 3) continue;
    Exact buf(std::string((size_t)n, '#').data(), (size_t)n);
    op();
    int64_t k = GeoArrowMetadataSerialize(&v, (char*)exact_ptr(buf), n);
    if (k != size) fail("size", what + fmt(" has size %ld with a capacity of %ld and %ld else", (long)k, (long)n, (long)size));
    if (n >= size) {
      std::string t((char*)buf.p, (size_t)size);
      if (text.empty()) text = t;
      if (t != text) fail("text", what + " is serialised differently");
      if (n > size && buf.p[size] != 0) fail("terminator", what + ": no terminator");
      if (n > size + 1 && buf.p[size + 1] != '#') fail("overrun", what + ": written past the terminator");
    }
  }
  std::vector<Json::Member> mem;
  Json j(text, false);
  if (!j.doc(mem)) fail("json", what + " gives invalid JSON " + quote(text));
  Meta got;
  Exact et(text.data(), text.size());
  GeoArrowError err;
  int rc = view(text, et, got, &err);
  if (rc) fail("reparse", what + " gives " + quote(text) + ", which is rejected");
  if (got.edges != m.edges || got.crs_type != m.crs_type) fail("values", what + " gives " + quote(text) + ", which is parsed as " + str_of(got));
  if (m.crs_type == GEOARROW_CRS_TYPE_NONE) return;
  // unescaping gives the text again
  Exact eg(got.crs.data(), got.crs.size());
  op();
  int64_t un = GeoArrowUnescapeCrs(sv(eg), nullptr, 0);
  if (un != (int64_t)want_text.size()) fail("unescape", what + " gives " + quote(text) + fmt(", whose CRS has size %ld", (long)un));
  for (int64_t n = 0; n <= un + 2; n++) {
    Exact buf(std::string((size_t)n, '#').data(), (size_t)n);
    op();
    int64_t k = GeoArrowUnescapeCrs(sv(eg), (char*)exact_ptr(buf), n);
    if (k != un) fail("unescape", what + fmt(": unescaped size %ld with capacity %ld", (long)k, (long)n));
    size_t have = (size_t)std::min(n, un);
    std::string u((char*)buf.p, have);
    if (u != want_text.substr(0, have)) fail("unescape", what + " gives " + quote(text) + ", whose CRS is " + quote(u));
    if (n > un && buf.p[un] != 0) fail("terminator", what + ": unescaped without terminator");
    if (n > un + 1 && buf.p[un + 1] != '#') fail("overrun", what + ": unescaped past the terminator");
  }
  vf::state(vf::hash_str(text));
}
static Meta pick_meta() {
  Meta m;
  m.edges = kEdges[choose(6)].v;
  int k = choose(6);
  m.crs_type = k < 4 ? kCrsTypes[k].v : k == 4 ? GEOARROW_CRS_TYPE_UNKNOWN : GEOARROW_CRS_TYPE_NONE;
  return m;
}
static void serialize() {
  Meta m = pick_meta();
  static const char* A[] = {"a", "\\", "\"", "{", "/", "\xc3\xa9", "}", "n", "u0041", " ", "\n", "\t", "\x01", "\x1f", "\r"};
  int na = 15, len = vf::thorough() ? 5 : 3;
  std::string crs;
  int n = choose(len + 1);
  for (int i = 0; i < n; i++) crs += A[choose(na)];
  // text that begins like JSON is passed through as it is
  vf::assume(crs.empty() || (crs[0] != '{' && crs[0] != '"'));
  check_serialize(m, crs, crs);
}
static void serialize_json() {
  Meta m = pick_meta();
  static const char* J[] = {"{}", "{\"a\":1}", "{ \"b\" : [true, {\"c\": \"}\\\"\"}] }", "\"\"", "\"EPSG:4326\"", "\"a \\\"quoted\\\" \\\\ one\"", "\"\\n\\t\\/\\b\\f\\r\"", "\"\\u0041\\u00e9\\u20ac\\ud83d\\ude00\""};
  static const char* U[] = {"{}", "{\"a\":1}", "{ \"b\" : [true, {\"c\": \"}\\\"\"}] }", "", "EPSG:4326", "a \"quoted\" \\ one", "\n\t/\b\f\r", "A\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"};
  int k = choose(9);
  if (k == 8) {
    GeoArrowMetadataView v;
    memset(&v, 0, sizeof v);
    GeoArrowMetadataSetLonLat(&v);
    m.crs_type = v.crs_type;
    std::string s(v.crs.data, (size_t)v.crs.size_bytes);
    check_serialize(m, s, s);
    return;
  }
  check_serialize(m, J[k], U[k]);
}
// Unescaping every JSON string.
static void unescape() {
  static const char* A[] = {"a", "\\\\", "\\\"", "\\n", "\\/", "\\t", "\\u0041", "\\u00e9", "\xc3\xa9", "{", "\\b", "\\u20AC", "\\ud83d\\ude00", "\\f", "\\r", " "};
  int len = vf::thorough() ? 5 : 4;
  std::string s = "\"";
  int n = choose(len + 1);
  for (int i = 0; i < n; i++) s += A[choose(16)];
  s += "\"";
  std::string want;
  Json j(s, false);
  if (!j.str(want)) fail("harness", s);
  Exact e(s.data(), s.size());
  op();
  int64_t k = GeoArrowUnescapeCrs(sv(e), nullptr, 0);
  if (k != (int64_t)want.size()) fail("unescape", quote(s) + fmt(" has the unescaped size %ld instead of %zu", (long)k, want.size()));
  for (int64_t c = 0; c <= k + 1; c++) {
    Exact buf(std::string((size_t)c, '#').data(), (size_t)c);
    op();
    int64_t kk = GeoArrowUnescapeCrs(sv(e), (char*)exact_ptr(buf), c);
    size_t have = (size_t)std::min(c, k);
    if (kk != k || std::string((char*)buf.p, have) != want.substr(0, have)) fail("unescape", quote(s) + " is unescaped as " + quote(std::string((char*)buf.p, have)));
    if (c > k && buf.p[k]) fail("terminator", quote(s) + ": no terminator");
  }
  vf::state(vf::hash_str(s));
}
// Unescaping any text at all stays within bounds.
static void unescape_any() {
  static const char A[] = "\"\\nu0a{";
  int n = choose(vf::thorough() ? 7 : 6);
  std::string s;
  for (int i = 0; i < n; i++) s += A[choose(7)];
  Exact e(s.data(), s.size());
  op();
  int64_t k = GeoArrowUnescapeCrs(sv(e), nullptr, 0);
  if (k < 0 || k > 3 * (int64_t)s.size()) fail("size", quote(s) + fmt(" has the unescaped size %ld", (long)k));
  for (int64_t c = 0; c <= k + 1; c++) {
    Exact buf(std::string((size_t)c, '#').data(), (size_t)c);
    op();
    if (GeoArrowUnescapeCrs(sv(e), (char*)exact_ptr(buf), c) != k) fail("size", quote(s) + " has two unescaped sizes");
  }
  vf::state(vf::hash_str(s));
}

// Escapes that are cut short, malformed or unpaired, in any neighbourhood.
static void unescape_units() {
  static const char* A[] = {"\\ud83d", "\\ude00", "\\u12", "\\u", "\\", "\\uZ041", "\\u004G", "a", "\\\\", "\\uDBFF", "\\uDFFF", "\\u0041", "\"", "u", "\\uD800\\", "\\uffff", "0"};
  int n = choose(vf::thorough() ? 6 : 5);
  std::string s = "\"";
  for (int i = 0; i < n; i++) s += A[choose(17)];
  bool closed = flip();
  if (closed) s += "\"";
  Exact e(s.data(), s.size());
  op();
  int64_t k = GeoArrowUnescapeCrs(sv(e), nullptr, 0);
  if (k < 0 || k > 3 * (int64_t)s.size()) fail("size", quote(s) + fmt(" has the unescaped size %ld", (long)k));
  std::string whole;
  for (int64_t c = k + 1; c >= 0; c--) {
    Exact buf(std::string((size_t)c, '#').data(), (size_t)c);
    op();
    if (GeoArrowUnescapeCrs(sv(e), (char*)exact_ptr(buf), c) != k) fail("size", quote(s) + " has two unescaped sizes");
    std::string got((char*)buf.p, (size_t)std::min(c, k));
    if (c > k) {
      whole = got;
      if (buf.p[k]) fail("terminator", quote(s) + ": no terminator");
    }
    if (got != whole.substr(0, got.size())) fail("unescape", quote(s) + " depends on the capacity");
  }
  // If it happens to be a string after all
  std::string want;
  Json j(s, false);
  bool ok = closed && j.str(want) && j.i == s.size();
  if (ok && s.find("\\ud") == std::string::npos && s.find("\\uD") == std::string::npos && whole != want) fail("unescape", quote(s) + " is unescaped as " + quote(whole));
  vf::state(vf::hash_str(s));
}

static void nesting() {
  static const int kD[] = {1, 2, 3, 10, 60, 1000, 100000, 5000000};
  int d = kD[choose(8)];
  int kind = choose(5);
  int close = choose(3);  // closed, not closed, closed wrongly
  std::string s = "{\"crs\":";
  std::string open = kind == 0 ? "{\"a\":" : kind == 1 ? "[" : kind == 2 ? "[{\"a\":" : kind == 3 ? "{" : "[[1],";
  std::string shut = kind == 0 ? "}" : kind == 1 ? "]" : kind == 2 ? "}]" : kind == 3 ? "}" : "]";
  if (kind == 1 || kind == 2 || kind == 4) s = "{\"other\":";
  for (int i = 0; i < d; i++) s += open;
  if (kind != 1 && kind != 3) s += "null";
  int closers = close == 0 ? d : close == 1 ? 0 : d - 1;
  for (int i = 0; i < closers; i++) s += shut;
  if (close == 0) s += "}";
  std::string what = fmt("nesting of %d %s closed %d times", d, open.c_str(), closers);
  note("%s", what.c_str());
  Exact e(s.data(), s.size());
  Meta got;
  GeoArrowError err;
  int rc = view(s, e, got, &err);
  if (rc && close == 0 && d <= 60 && kind != 3) fail("rejected", what + " is rejected");
  if (!rc && close && d > 1) fail("accepted", what + " is accepted");
  vf::state(vf::mix(vf::hash_str(what), rc));
}

// Metadata of schemas
static void schemas() {
  Meta m = pick_meta();
  static const char* C[] = {"EPSG:4326", "{\"a\":{}}", "\"q\"", "a\"b\\c", ""};
  std::string crs = C[choose(5)];
  static const int kT[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, 1, 12006, GEOARROW_TYPE_BOX};
  int type = kT[choose(5)];
  int before = choose(3);
  OwnedSchema s;
  if (GeoArrowSchemaInitExtension(&s.s, (GeoArrowType)type)) fail("init", "schema");
  if (before) {
    ArrowBuffer b;
    if (ArrowMetadataBuilderInit(&b, s.s.metadata)) fail("init", "builder");
    (void)ArrowMetadataBuilderSet(&b, ArrowCharView("first"), ArrowCharView("1"));
    if (before == 2) (void)ArrowMetadataBuilderSet(&b, ArrowCharView("ARROW:extension:metadata"), ArrowCharView("{\"edges\":\"thomas\",\"crs\":\"old\"}"));
    (void)ArrowMetadataBuilderSet(&b, ArrowCharView("last"), ArrowCharView(""));
    int rc = ArrowSchemaSetMetadata(&s.s, (const char*)b.data);
    ArrowBufferReset(&b);
    if (rc) fail("init", "metadata");
  }
  GeoArrowMetadataView v;
  memset(&v, 0, sizeof v);
  v.edge_type = (GeoArrowEdgeType)m.edges;
  v.crs_type = (GeoArrowCrsType)m.crs_type;
  Exact ec(crs.data(), crs.size());
  v.crs = sv(ec);
  std::string what = fmt("schema of %d before %d ", type, before) + str_of(m) + " " + quote(crs);
  op();
  if (GeoArrowSchemaSetMetadata(&s.s, &v)) fail("set", what + ": SetMetadata failed");
  // a second schema takes the metadata of the first
  OwnedSchema s2;
  if (GeoArrowSchemaInitExtension(&s2.s, GEOARROW_TYPE_WKB)) fail("init", "schema");
  int twice = choose(2);
  for (int i = 0; i <= twice; i++) {
    op();
    if (GeoArrowSchemaSetMetadataFrom(&s2.s, &s.s)) fail("set", what + ": SetMetadataFrom failed");
  }
  for (int w = 0; w < 2; w++) {
    ArrowSchema* x = w ? &s2.s : &s.s;
    GeoArrowSchemaView sv_;
    op();
    GeoArrowError err;
    if (GeoArrowSchemaViewInit(&sv_, x, &err)) fail("view", what + ": the schema is invalid");
    if ((int)sv_.type != (w ? (int)GEOARROW_TYPE_WKB : type)) fail("type", what + ": the type changed");
    std::string t(sv_.extension_metadata.data ? sv_.extension_metadata.data : "", (size_t)sv_.extension_metadata.size_bytes);
    Exact e(t.data(), t.size());
    Meta got;
    if (view(t, e, got, &err)) fail("view", what + ": invalid metadata " + quote(t));
    if (got.edges != m.edges || got.crs_type != m.crs_type) fail("values", what + ": read as " + str_of(got));
    std::string u((size_t)got.crs.size() + 1, 0);
    Exact eg(got.crs.data(), got.crs.size());
    u.resize((size_t)GeoArrowUnescapeCrs(sv(eg), &u[0], (int64_t)u.size()));
    if (m.crs_type != GEOARROW_CRS_TYPE_NONE && u != (crs == "\"q\"" ? "q" : crs)) fail("crs", what + ": the CRS became " + quote(u));
    // everything else is still there
    if (before && !w) {
      for (auto kv : {std::make_pair("first", "1"), std::make_pair("last", "")}) {
        ArrowStringView val;
        val.data = nullptr;
        val.size_bytes = -1;
        (void)ArrowMetadataGetValue(x->metadata, ArrowCharView(kv.first), &val);
        if (std::string(val.data ? val.data : "?", val.data ? (size_t)val.size_bytes : 1) != kv.second) fail("other", what + ": other metadata was lost");
      }
    }
  }
  vf::state(vf::hash_str(what));
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"tokens", tokens, true, "all sequences of up to 8 of 12 (thorough 18) tokens"},
                    {"objects", objects, true, "all objects of up to 3 members in any order, whitespace and value, every prefix and 14 affixes"},
                    {"edits", edits, true, "every insertion, replacement and deletion of a character in 3 texts, followed by every deletion"},
                    {"serialize", serialize, true, "6 edge types x 6 CRS types x all CRS of up to 3 (5) of 15 symbols x capacities"},
                    {"serialize_json", serialize_json, true, "6 edge types x 6 CRS types x 9 CRS in JSON x capacities"},
                    {"unescape", unescape, true, "all JSON strings of up to 4 (5) of 16 symbols x all capacities"},
                    {"unescape_any", unescape_any, true, "all texts of up to 5 (6) of 7 characters x all capacities"},
                    {"unescape_units", unescape_units, true, "all texts of up to 4 (5) of 17 whole and broken escapes, closed or not x all capacities"},
                    {"nesting", nesting, true, "8 depths up to 5 million x 5 kinds x 3 endings"},
                    {"schemas", schemas, true, "setting and copying metadata on schemas of 5 types with 3 kinds of earlier metadata"}});
}
