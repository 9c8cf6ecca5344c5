// C14: printing and parsing of numbers.
#include "h.h"
using namespace h;

static double from_bits(uint64_t u) {
  double d;
  memcpy(&d, &u, 8);
  return d;
}

// Prints into exactly `room` bytes; everything behind what was written must be untouched.
static std::string print(double d, uint32_t p, const char* what) {
  static const int kRoom = 40;
  char* b = new char[kRoom];
  std::unique_ptr<char[]> own(b);
  memset(b, '#', kRoom);
  op();
  int64_t n = GeoArrowPrintDouble(d, p, b);
  if (n <= 0 || n > kRoom) fail("length", fmt("%s %.17g at precision %u: length %ld", what, d, p, (long)n));
  return std::string(b, (size_t)n);
}
static int parse(const std::string& t, double* out) {
  Exact e(t.data(), t.size());
  op();
  const char* p = (const char*)exact_ptr(e);
  return GeoArrowFromChars(p, p + t.size(), out);
}
static std::string special(double d) {
  (void)d;
  return "";
}

static void check_print(double d, uint32_t p, const char* what) {
  std::string s = print(d, p, what);
  if (d - d != 0) {  // not finite: reads back as the same
    double back = 0;
    if (parse(s, &back)) fail("special", fmt("%s %.17g is printed as ", what, d) + quote(s) + ", which does not parse");
    if (!(d != d ? back != back : back == d)) fail("special", fmt("%s %.17g is printed as ", what, d) + quote(s));
    return;
  }
  std::string e = fmt_fixed(d, (int)p);
  if (s != e) fail("print", fmt("%s %.17g at precision %u is printed as ", what, d, p) + quote(s) + " instead of " + quote(e));
  double back = 0;
  if (parse(s, &back)) fail("reparse", fmt("%s %.17g at precision %u is printed as ", what, d, p) + quote(s) + ", which does not parse");
  if (back != strtod(s.c_str(), nullptr)) fail("reparse", fmt("%s ", what) + quote(s) + fmt(" is parsed as %.17g", back));
  if (p == 16) {
    std::string again = print(back, p, what);
    if (again != s) fail("inverse", fmt("%s %.17g is printed as ", what, d) + quote(s) + ", which is re-read and printed as " + quote(again));
  }
}
static void all_precisions(double d, const char* what) {
  for (uint32_t p = 0; p <= 16; p++) check_print(d, p, what);
  check_print(-d, 16, what);
  check_print(-d, 2, what);
  uint64_t u;
  memcpy(&u, &d, 8);
  vf::state(vf::mix(u, 1));
}

// Every exponent with structured mantissas.
static void bits() {
  uint64_t e = (uint64_t)choose(2048);
  int k = choose(vf::thorough() ? 52 * 3 + 4096 : 52 + 24 + 128);
  uint64_t m;
  const uint64_t full = (1ull << 52) - 1;
  if (vf::thorough()) {
    if (k < 52) m = 1ull << k;
    else if (k < 104) m = full ^ ((1ull << (k - 52)) - 1);
    else if (k < 156) m = (1ull << (k - 104)) - 1;
    else m = ((uint64_t)(k - 156) << 40) + 0x12345678ull * (uint64_t)(k - 155);
  } else {
    if (k < 52) m = 1ull << k;
    else if (k < 60) m = full - (uint64_t)(k - 52);
    else if (k == 60) m = 0;
    else if (k == 61) m = 0x5555555555555ull;
    else if (k == 62) m = 0xAAAAAAAAAAAAAull;
    else m = ((uint64_t)(k - 63) << 45 ^ 0x0123456789ABull);
  }
  all_precisions(from_bits(e << 52 | (m & full)), "bits");
}
// Every short decimal, and its neighbours.
static void decimals() {
  int scale = choose(vf::thorough() ? 12 : 9);   // digits behind the point
  int hi = choose(vf::thorough() ? 10000 : 1000);
  for (int lo = 0; lo < 100; lo++) {
    double d = strtod(fmt("%d%02de-%d", hi, lo, scale).c_str(), nullptr);
    all_precisions(d, "decimal");
    if (lo % 5 == 0) {
      all_precisions(nextafter(d, INFINITY), "next to a decimal");
      all_precisions(nextafter(d, -INFINITY), "next to a decimal");
    }
  }
}
// Ties and powers of ten, where carries run through all digits.
static void borders() {
  int e = choose(37) - 18;
  int lead = choose(10);
  int tail = choose(20);
  static const char* kTail[] = {"", "5", "05", "15", "25", "45", "49", "51", "95", "99", "999", "9999995", "99999999", "999999999999", "9999999999999995",
                                "4999999999999999", "5000000000000001", "0000000000000001", "00000005", "125"};
  double d = strtod(fmt("%d.%se%d", lead, kTail[tail], e).c_str(), nullptr);
  all_precisions(d, "border");
  all_precisions(nextafter(d, INFINITY), "border up");
  all_precisions(nextafter(d, -INFINITY), "border down");
}
static void special_values() {
  static const double k[] = {0.0, -0.0, NAN, INFINITY, -INFINITY, 1e17, -1e17, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                             9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 99999999999999999.0};
  double d = k[choose(14)];
  int dir = choose(3);
  if (d - d == 0 && dir) d = nextafter(d, dir == 1 ? INFINITY : -INFINITY);
  for (uint32_t p = 0; p <= 16; p++) check_print(d, p, "special");
  vf::state(vf::hash_str(fmt("%.17g", d)));
}

// ------------------------------------------------------------------- parsing

enum What { NUMBER, ERROR_, EITHER };
static What classify(const std::string& t, double* d) {
  size_t k = 0;
  if (t.empty()) return ERROR_;
  if (t[0] == '-') k++;
  std::string low;
  for (char c : t.substr(k)) low += (char)tolower(c);
  if (low == "nan" || low == "inf" || low == "infinity") {
    *d = low == "nan" ? NAN : k ? -INFINITY : INFINITY;
    return NUMBER;
  }
  // spellings of particular readers: hexadecimal, leading plus, nan(...)
  if (t[0] == '+' || low.compare(0, 2, "0x") == 0 || low.compare(0, 4, "nan(") == 0) return EITHER;
  size_t nd = 0, fr = 0;
  bool dot = false;
  while (k < t.size() && isdigit((unsigned char)t[k])) k++, nd++;
  if (k < t.size() && t[k] == '.') {
    dot = true;
    k++;
    while (k < t.size() && isdigit((unsigned char)t[k])) k++, fr++;
  }
  if (nd + fr == 0) return ERROR_;
  if (k < t.size() && (t[k] == 'e' || t[k] == 'E')) {
    k++;
    if (k < t.size() && (t[k] == '-' || t[k] == '+')) k++;
    if (k >= t.size() || !isdigit((unsigned char)t[k])) return ERROR_;
    while (k < t.size() && isdigit((unsigned char)t[k])) k++;
  }
  if (k != t.size()) return ERROR_;
  *d = strtod(t.c_str(), nullptr);
  if (dot && (nd == 0 || fr == 0)) return EITHER;
  if (t.size() >= 64) return EITHER;
  if (*d - *d != 0) return EITHER;
  if (fabs(*d) < 2.3e-308 && *d == 0) {
    for (char c : t) {
      if (c == 'e' || c == 'E') break;
      if (c >= '1' && c <= '9') return EITHER;
    }
  } else if (fabs(*d) < 2.3e-308) return EITHER;
  return NUMBER;
}
static bool count_states = true;
static void check_parse(const std::string& t) {
  double e = 0, d = -777;
  What w = classify(t, &e);
  int rc = parse(t, &d);
  if (rc == 0) {
    if (w == ERROR_) fail("accepted", quote(t) + fmt(" is accepted as %.17g", d));
    bool same = memcmp(&d, &e, 8) == 0 || (d != d && e != e);
    if (w == NUMBER && !same) fail("value", quote(t) + fmt(" is parsed as %.17g instead of %.17g", d, e));
    if (w == EITHER && classify(t, &e) == EITHER && !same && t[0] != '+' && t.find_first_of("xX(") == std::string::npos)
      fail("value", quote(t) + fmt(" is parsed as %.17g instead of %.17g", d, e));
  } else if (w == NUMBER) {
    fail("rejected", quote(t) + fmt(" is rejected with code %d", rc));
  }
  if (rc == 0 && count_states) vf::state(vf::hash_str(t));
}

// All texts over the alphabet of numbers.
static void texts() {
  static const char A[] = "0159.-+eE nxif(,\0";
  int na = 17, len = vf::thorough() ? 7 : 6;
  std::string s;
  // the first symbols are choices, the last two a loop
  int n = choose(len - 1);
  for (int i = 0; i < n; i++) s += A[choose(na)];
  if (n < len - 2) {
    check_parse(s);
    return;
  }
  check_parse(s);
  for (int i = 0; i < na; i++) {
    check_parse(s + A[i]);
    for (int j = 0; j < na; j++) check_parse(s + A[i] + A[j]);
  }
}
// Structured numbers: all combinations of parts.
static void parts() {
  static const char* kSign[] = {"", "-"};
  static const char* kInt[] = {"0", "1", "9", "00", "007", "10", "123456789", "4294967296", "9007199254740991", "9007199254740993",
                               "18446744073709551615", "18446744073709551616", "99999999999999999999", "17976931348623157", "22250738585072014", "100000000000000000000000"};
  static const char* kFrac[] = {"", ".0", ".5", ".25", ".1", ".000001", ".123456789012345678", ".9999999999999999999", ".00000000000000000000000000001",
                                ".49999999999999994448884876874217", ".5000000000000000000000000001", ".999999999999999888977697537484345957636833191"};
  static const char* kExp[] = {"", "e0", "E1", "e+1", "e-1", "e22", "e23", "e-22", "e-23", "e007", "e100", "e-100", "e291", "e292", "e-300", "e-323", "e-324", "e-340", "e300", "e308"};
  std::string s = kSign[choose(2)];
  s += kInt[choose(16)];
  s += kFrac[choose(12)];
  s += kExp[choose(20)];
  check_parse(s);
  // cut anywhere, or followed by something else
  for (size_t i = 0; i < s.size(); i++) check_parse(s.substr(0, i));
  static const char* kMore[] = {" ", "x", ".", "e", "-", "\x01", "0x", "e5", ".5", ",", "\n"};
  for (auto m : kMore) check_parse(s + m);
  for (auto m : kMore) check_parse(m + s);
  check_parse(s + std::string(1, '\0'));
}
// Halfway points between doubles: correctly rounded to even.
static void halfway() {
  // m * 2^e exactly between two doubles, written out in full
  uint64_t base = (1ull << 52) + (uint64_t)choose(16) * 0x1111111111111ull / 16 * 15;
  base &= (1ull << 53) - 1;
  base |= 1ull << 52;
  int e = choose(11);  // the doubles around base * 2^e are 2^e apart
  unsigned __int128 v = ((unsigned __int128)base << (e + 1)) + ((unsigned __int128)1 << e);
  // v / 2 is the halfway point of base*2^e and (base+1)*2^e
  int which = choose(3);
  std::string s;
  unsigned __int128 q = v / 2;
  bool half = v & 1;
  while (q) {
    s.insert(s.begin(), (char)('0' + (int)(q % 10)));
    q /= 10;
  }
  s += half ? ".5" : ".0";
  if (which == 1) s += "0000000000000000001";
  if (which == 2) {
    // just below
    if (half) s.back() = '4', s += "9999999999999999999";
    else {
      size_t i = s.find('.') - 1;
      while (s[i] == '0') s[i--] = '9';
      s[i]--;
      s.back() = '9';
      s += "9999999999";
    }
  }
  int sh = choose(4);
  if (sh == 1) s += "e0";
  if (sh == 2) {
    s.erase(s.find('.'), 1);
    int digits = 0;
    digits = (int)s.size();
    s = "0." + s + fmt("e%d", digits - (which == 0 ? 1 : which == 1 ? 20 : half ? 20 : 11));
  }
  if (sh == 3) s = "-" + s;
  check_parse(s);
}
// Everything short that can be printed is parsed as what strtod reads.
static void grid() {
  int a = choose(1000), e = choose(60) - 30;
  check_parse(fmt("%de%d", a, e));
  struct Quiet {
    Quiet() { count_states = false; }
    ~Quiet() { count_states = true; }
  } quiet;
  for (int b = 0; b < (vf::thorough() ? 1000 : 100); b++) {
    check_parse(fmt("%d.%de%d", a, b, e));
    check_parse(fmt("-%d%03d.%d", a, b, e + 30));
  }
}
// All lengths around the internal buffers.
static void lengths() {
  int n = choose(200);
  int kind = choose(5);
  std::string s;
  if (kind == 0) s = "1" + std::string(n, '0');
  if (kind == 1) s = "0." + std::string(n, '0') + "1";
  if (kind == 2) s = std::string(n, '0') + "1.5";
  if (kind == 3) s = "1." + std::string(n, '3') + "e1";
  if (kind == 4) s = std::string(n, '9') + "x";
  check_parse(s);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"bits", bits, true, "all 2048 exponents x 204 (thorough 4252) mantissas x 17 precisions"},
                    {"decimals", decimals, true, "all decimals of 5 (6) digits at 9 (12) scales and neighbours x 17 precisions"},
                    {"borders", borders, true, "10 leading digits x 20 tails x 37 exponents and neighbours x 17 precisions"},
                    {"special", special_values, true, "special values and neighbours x 17 precisions"},
                    {"texts", texts, true, "all texts of up to 6 (7) of 17 characters"},
                    {"parts", parts, true, "all combinations of 2 signs, 16 integers, 12 fractions, 20 exponents with every prefix and 11 extra affixes"},
                    {"halfway", halfway, true, "halfway points of 16 x 11 pairs of doubles and their neighbours in 4 spellings"},
                    {"grid", grid, true, "1000 x 60 x 100 (1000) decimals"},
                    {"lengths", lengths, true, "5 kinds of numbers of 1 to 200 characters"}});
}
