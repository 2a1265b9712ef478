// Replay driver: runs single operations of the library on explicitly given memory contents.
// Line protocol on stdin: <op> <arg>...   values are hex of the object's memory, integers are decimal.
#include <bls12-381/bls12-381.hpp>
#include "sha256.hpp"
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
namespace bls12_381 {
namespace pairing { void addition_step(std::array<fp2, 3>& coeff, g2& r, const g2& tp); }
}
using namespace bls12_381;
using std::string; using std::vector; using std::array; using std::span;
typedef vector<string> V;
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static vector<uint8_t> unhex(const string& s) { vector<uint8_t> r; if (s == "-") return r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(hv(s[i]) * 16 + hv(s[i + 1])); return r; }
static string hex(const void* p, size_t n) { static const char* h = "0123456789abcdef"; string s; auto b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { s += h[b[i] >> 4]; s += h[b[i] & 15]; } return n ? s : string("-"); }
template<class T> static T rd(const string& s) { auto b = unhex(s); if (b.size() != sizeof(T)) { std::cerr << "bad size " << b.size() << " want " << sizeof(T) << "\n"; exit(3); } T t; memcpy((void*)&t, b.data(), sizeof(T)); return t; }
template<class T> static string wr(const T& t) { return hex(&t, sizeof(T)); }
static string wr(bool b) { return b ? "1" : "0"; }
static uint64_t num(const string& s) { return std::stoull(s); }
template<class T> static string wo(const std::optional<T>& o) { return o ? wr(*o) : string("none"); }
template<class T> static vector<T> rdv(const string& s) { auto b = unhex(s); vector<T> r(b.size() / sizeof(T)); for (size_t i = 0; i < r.size(); i++) memcpy((void*)&r[i], &b[i * sizeof(T)], sizeof(T)); return r; }
// exact-size heap copy so that the address sanitizer sees any overrun
struct Buf { std::unique_ptr<uint8_t[]> p; size_t n; Buf(const vector<uint8_t>& v) : p(new uint8_t[v.size()]), n(v.size()) { memcpy(p.get(), v.data(), n); } };
typedef std::map<string, std::function<string(const V&)>> Ops;
Ops& getops() __attribute__((weak));
Ops& getops() { static Ops o; return o; }
#define ops getops()
#define OP(name) ops[name] = [](const V& a) -> string
template<class T> void field(const string& n) {
    ops[n + ".add"] = [](const V& a) { return wr(rd<T>(a[0]).add(rd<T>(a[1]))); };
    ops[n + ".sub"] = [](const V& a) { return wr(rd<T>(a[0]).subtract(rd<T>(a[1]))); };
    ops[n + ".mul"] = [](const V& a) { return wr(rd<T>(a[0]).multiply(rd<T>(a[1]))); };
    ops[n + ".addA"] = [](const V& a) { T x = rd<T>(a[0]); x.addAssign(rd<T>(a[1])); return wr(x); };
    ops[n + ".subA"] = [](const V& a) { T x = rd<T>(a[0]); x.subtractAssign(rd<T>(a[1])); return wr(x); };
    ops[n + ".mulA"] = [](const V& a) { T x = rd<T>(a[0]); x.multiplyAssign(rd<T>(a[1])); return wr(x); };
    ops[n + ".addAS"] = [](const V& a) { T x = rd<T>(a[0]); x.addAssign(x); return wr(x); };
    ops[n + ".subAS"] = [](const V& a) { T x = rd<T>(a[0]); x.subtractAssign(x); return wr(x); };
    ops[n + ".mulAS"] = [](const V& a) { T x = rd<T>(a[0]); x.multiplyAssign(x); return wr(x); };
    ops[n + ".mulS"] = [](const V& a) { T x = rd<T>(a[0]); return wr(x.multiply(x)); };
    ops[n + ".addS"] = [](const V& a) { T x = rd<T>(a[0]); return wr(x.add(x)); };
    ops[n + ".subS"] = [](const V& a) { T x = rd<T>(a[0]); return wr(x.subtract(x)); };
    ops[n + ".dbl"] = [](const V& a) { return wr(rd<T>(a[0]).dbl()); };
    ops[n + ".dblA"] = [](const V& a) { T x = rd<T>(a[0]); x.doubleAssign(); return wr(x); };
    ops[n + ".sqr"] = [](const V& a) { return wr(rd<T>(a[0]).square()); };
    ops[n + ".sqrA"] = [](const V& a) { T x = rd<T>(a[0]); x.squareAssign(); return wr(x); };
    ops[n + ".neg"] = [](const V& a) { return wr(rd<T>(a[0]).negate()); };
    ops[n + ".inv"] = [](const V& a) { return wr(rd<T>(a[0]).inverse()); };
    ops[n + ".isZero"] = [](const V& a) { return wr(rd<T>(a[0]).isZero()); };
    ops[n + ".isOne"] = [](const V& a) { return wr(rd<T>(a[0]).isOne()); };
    ops[n + ".equal"] = [](const V& a) { return wr(rd<T>(a[0]).equal(rd<T>(a[1]))); };
    ops[n + ".zero"] = [](const V& a) { return wr(T::zero()); };
    ops[n + ".one"] = [](const V& a) { return wr(T::one()); };
    ops[n + ".exp1"] = [](const V& a) { return wr(rd<T>(a[0]).template exp<1>(rd<array<uint64_t, 1>>(a[1]))); };
    ops[n + ".exp6"] = [](const V& a) { return wr(rd<T>(a[0]).template exp<6>(rd<array<uint64_t, 6>>(a[1]))); };
    static constexpr size_t S = sizeof(T);
    ops[n + ".fromBE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(T::fromBytesBE(span<const uint8_t, S>(b.p.get(), S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".fromLE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(T::fromBytesLE(span<const uint8_t, S>(b.p.get(), S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".toBE"] = [](const V& a) { return wr(rd<T>(a[0]).toBytesBE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toLE"] = [](const V& a) { return wr(rd<T>(a[0]).toBytesLE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toBEs"] = [](const V& a) { Buf b(vector<uint8_t>(S, 0xa5)); rd<T>(a[0]).toBytesBE(span<uint8_t, S>(b.p.get(), S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), S); };
    ops[n + ".toLEs"] = [](const V& a) { Buf b(vector<uint8_t>(S, 0xa5)); rd<T>(a[0]).toBytesLE(span<uint8_t, S>(b.p.get(), S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), S); };
}
template<class T> void tower(const string& n) {
    ops[n + ".frob"] = [](const V& a) { return wr(rd<T>(a[0]).frobeniusMap(num(a[1]))); };
    ops[n + ".frobA"] = [](const V& a) { T x = rd<T>(a[0]); x.frobeniusMapAssign(num(a[1])); return wr(x); };
}
template<class T> void sqrtops(const string& n) {
    ops[n + ".sqrt"] = [](const V& a) { T c; bool ok = rd<T>(a[0]).sqrt(c); return wr(ok) + " " + wr(c); };
    ops[n + ".sqrtS"] = [](const V& a) { T c = rd<T>(a[0]); bool ok = c.sqrt(c); return wr(ok) + " " + wr(c); };
    ops[n + ".isQNR"] = [](const V& a) { return wr(rd<T>(a[0]).isQuadraticNonResidue()); };
    ops[n + ".lexLargest"] = [](const V& a) { return wr(rd<T>(a[0]).isLexicographicallyLargest()); };
    ops[n + ".sign"] = [](const V& a) { return wr(rd<T>(a[0]).sign()); };
}
template<size_t N> void widths() {
    string n = std::to_string(N);
    typedef array<uint64_t, N> A;
    ops["s.cmp" + n] = [](const V& a) { auto c = scalar::cmp<N>(rd<A>(a[0]), rd<A>(a[1])); return string(c < 0 ? "-1" : c > 0 ? "1" : "0"); };
    ops["s.equal" + n] = [](const V& a) { return wr(scalar::equal<N>(rd<A>(a[0]), rd<A>(a[1]))); };
    ops["s.bitLength" + n] = [](const V& a) { return std::to_string(scalar::bitLength<N>(rd<A>(a[0]))); };
    ops["s.rsh" + n] = [](const V& a) { A o; scalar::rsh<N>(o, rd<A>(a[0]), num(a[1])); return wr(o); };
    ops["s.toLE" + n] = [](const V& a) { return wr(scalar::toBytesLE<N>(rd<A>(a[0]))); };
    ops["s.toBE" + n] = [](const V& a) { return wr(scalar::toBytesBE<N>(rd<A>(a[0]))); };
    ops["s.fromLE" + n] = [](const V& a) { Buf b(unhex(a[0])); return wr(scalar::fromBytesLE<N>(span<const uint8_t, 8 * N>(b.p.get(), 8 * N))); };
    ops["s.fromBE" + n] = [](const V& a) { Buf b(unhex(a[0])); return wr(scalar::fromBytesBE<N>(span<const uint8_t, 8 * N>(b.p.get(), 8 * N))); };
}
template<size_t NC, size_t NA, size_t NB> void mulw() {
    string n = std::to_string(NC) + "_" + std::to_string(NA) + "_" + std::to_string(NB);
    ops["s.mul" + n] = [](const V& a) -> string { try { return wr(scalar::multiply<NC, NA, NB>(rd<array<uint64_t, NA>>(a[0]), rd<array<uint64_t, NB>>(a[1]))); } catch (const std::exception&) { return "throw"; } };
}
template<size_t NC, size_t NA, size_t NB> void addw() {
    string n = std::to_string(NC) + "_" + std::to_string(NA) + "_" + std::to_string(NB);
    ops["s.add" + n] = [](const V& a) -> string { try { return wr(scalar::add<NC, NA, NB>(rd<array<uint64_t, NA>>(a[0]), rd<array<uint64_t, NB>>(a[1]))); } catch (const std::exception&) { return "throw"; } };
}
template<size_t N, size_t M> void divw() {
    string n = std::to_string(N) + "_" + std::to_string(M);
    ops["s.div" + n] = [](const V& a) { array<uint64_t, N> c; array<uint64_t, M> d; bn_divn_safe<N, M>(c, d, rd<array<uint64_t, N>>(a[0]), rd<array<uint64_t, M>>(a[1])); return wr(c) + " " + wr(d); };
}
template<size_t N> void modp() { ops["fp.modPrime" + std::to_string(N)] = [](const V& a) { return wr(fp::modPrime<N>(rd<array<uint64_t, N>>(a[0]))); }; }
template<class G, class F> void group(const string& n) {
    static constexpr size_t S = sizeof(F);
    ops[n + ".add"] = [](const V& a) { return wr(rd<G>(a[0]).add(rd<G>(a[1]))); };
    ops[n + ".addA"] = [](const V& a) { G x = rd<G>(a[0]); x.addAssign(rd<G>(a[1])); return wr(x); };
    ops[n + ".addAS"] = [](const V& a) { G x = rd<G>(a[0]); x.addAssign(x); return wr(x); };
    ops[n + ".sub"] = [](const V& a) { return wr(rd<G>(a[0]).subtract(rd<G>(a[1]))); };
    ops[n + ".subA"] = [](const V& a) { G x = rd<G>(a[0]); x.subtractAssign(rd<G>(a[1])); return wr(x); };
    ops[n + ".subAS"] = [](const V& a) { G x = rd<G>(a[0]); x.subtractAssign(x); return wr(x); };
    ops[n + ".dbl"] = [](const V& a) { return wr(rd<G>(a[0]).dbl()); };
    ops[n + ".dblA"] = [](const V& a) { G x = rd<G>(a[0]); x.doubleAssign(); return wr(x); };
    ops[n + ".neg"] = [](const V& a) { return wr(rd<G>(a[0]).negate()); };
    ops[n + ".isZero"] = [](const V& a) { return wr(rd<G>(a[0]).isZero()); };
    ops[n + ".isAffine"] = [](const V& a) { return wr(rd<G>(a[0]).isAffine()); };
    ops[n + ".equal"] = [](const V& a) { return wr(rd<G>(a[0]).equal(rd<G>(a[1]))); };
    ops[n + ".affine"] = [](const V& a) { return wr(rd<G>(a[0]).affine()); };
    ops[n + ".isOnCurve"] = [](const V& a) { return wr(rd<G>(a[0]).isOnCurve()); };
    ops[n + ".inSub"] = [](const V& a) { return wr(rd<G>(a[0]).inCorrectSubgroup()); };
    ops[n + ".clear"] = [](const V& a) { return wr(rd<G>(a[0]).clearCofactor()); };
    ops[n + ".zero"] = [](const V& a) { return wr(G::zero()); };
    ops[n + ".one"] = [](const V& a) { return wr(G::one()); };
    ops[n + ".scale1"] = [](const V& a) { return wr(rd<G>(a[0]).template scale<1>(rd<array<uint64_t, 1>>(a[1]))); };
    ops[n + ".scale2"] = [](const V& a) { return wr(rd<G>(a[0]).template scale<2>(rd<array<uint64_t, 2>>(a[1]))); };
    ops[n + ".scale4"] = [](const V& a) { return wr(rd<G>(a[0]).template scale<4>(rd<array<uint64_t, 4>>(a[1]))); };
    ops[n + ".scale6"] = [](const V& a) { return wr(rd<G>(a[0]).template scale<6>(rd<array<uint64_t, 6>>(a[1]))); };
    // the callback: 0 none, 1 counts, 2 computes something else of the same kind now and then, 3 as 2 after a call whose callback threw
    ops[n + ".wsum"] = [](const V& a) {
        auto p = rdv<G>(a[0]); auto s = rdv<array<uint64_t, 4>>(a[1]); uint64_t k = 0; std::function<void()> y; char mode = a[2][0];
        vector<G> p2(p.rbegin(), p.rend()); vector<array<uint64_t, 4>> s2(s.begin(), s.end()); p2.push_back(G::one()); p2.push_back(G::one().dbl()); if (p2.size() > 4) p2.resize(4);
        while (s2.size() < 4) s2.push_back({5 * s2.size() + 3, 1, 7, 1});
        if (mode == '3') try { uint64_t j = 0; G::weightedSum(p, s, [&] { if (++j == 3 + s.size() % 7) throw 1; }); } catch (int) { }
        if (mode == '1') y = [&] { k++; };
        if (mode == '2' || mode == '3') y = [&] { if (++k == 2 || k == 5 || k == 40 || k == 77) G::weightedSum(p2, s2, {}); };
        G r = G::weightedSum(p, s, y); return wr(r) + " " + (k ? "1" : "0"); };
    ops[n + ".map"] = [](const V& a) { return wr(G::mapToCurve(rd<F>(a[0]))); };
    ops[n + ".fromJacBE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(G::fromJacobianBytesBE(span<const uint8_t, 3 * S>(b.p.get(), 3 * S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".fromJacLE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(G::fromJacobianBytesLE(span<const uint8_t, 3 * S>(b.p.get(), 3 * S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".fromAffBE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(G::fromAffineBytesBE(span<const uint8_t, 2 * S>(b.p.get(), 2 * S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".fromAffLE"] = [](const V& a) { Buf b(unhex(a[0])); return wo(G::fromAffineBytesLE(span<const uint8_t, 2 * S>(b.p.get(), 2 * S), { .check_valid = a[1] == "1", .to_mont = a[2] == "1" })); };
    ops[n + ".fromComp"] = [](const V& a) { Buf b(unhex(a[0])); return wo(G::fromCompressedBytesBE(span<const uint8_t, S>(b.p.get(), S))); };
    ops[n + ".toJacBE"] = [](const V& a) { return wr(rd<G>(a[0]).toJacobianBytesBE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toJacLE"] = [](const V& a) { return wr(rd<G>(a[0]).toJacobianBytesLE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toAffBE"] = [](const V& a) { return wr(rd<G>(a[0]).toAffineBytesBE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toAffLE"] = [](const V& a) { return wr(rd<G>(a[0]).toAffineBytesLE(a[1] == "1" ? from_mont::yes : from_mont::no)); };
    ops[n + ".toComp"] = [](const V& a) { return wr(rd<G>(a[0]).toCompressedBytesBE()); };
    ops[n + ".toJacBEs"] = [](const V& a) { Buf b(vector<uint8_t>(3 * S, 0xa5)); rd<G>(a[0]).toJacobianBytesBE(span<uint8_t, 3 * S>(b.p.get(), 3 * S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), 3 * S); };
    ops[n + ".toJacLEs"] = [](const V& a) { Buf b(vector<uint8_t>(3 * S, 0xa5)); rd<G>(a[0]).toJacobianBytesLE(span<uint8_t, 3 * S>(b.p.get(), 3 * S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), 3 * S); };
    ops[n + ".toAffBEs"] = [](const V& a) { Buf b(vector<uint8_t>(2 * S, 0xa5)); rd<G>(a[0]).toAffineBytesBE(span<uint8_t, 2 * S>(b.p.get(), 2 * S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), 2 * S); };
    ops[n + ".toAffLEs"] = [](const V& a) { Buf b(vector<uint8_t>(2 * S, 0xa5)); rd<G>(a[0]).toAffineBytesLE(span<uint8_t, 2 * S>(b.p.get(), 2 * S), a[1] == "1" ? from_mont::yes : from_mont::no); return hex(b.p.get(), 2 * S); };
    ops[n + ".toComps"] = [](const V& a) { Buf b(vector<uint8_t>(S, 0xa5)); rd<G>(a[0]).toCompressedBytesBE(span<uint8_t, S>(b.p.get(), S)); return hex(b.p.get(), S); };
}
static vector<vector<uint8_t>> msgs(const string& s) { vector<vector<uint8_t>> r; std::stringstream ss(s); string x; if (s == "-") return r; while (std::getline(ss, x, ',')) r.push_back(unhex(x == "e" ? "-" : x)); return r; }
typedef array<uint64_t, 4> S4;
// the file is compiled once per PART so that the parts build in parallel
#if PART == 0
static void reg() { field<fp>("fp"); field<fp2>("fp2"); tower<fp2>("fp2"); sqrtops<fp>("fp"); sqrtops<fp2>("fp2"); }
#elif PART == 1
static void reg() { field<fp6>("fp6"); field<fp12>("fp12"); tower<fp6>("fp6"); tower<fp12>("fp12"); }
#elif PART == 2
static void reg() { group<g1, fp>("g1"); }
#elif PART == 3
static void reg() { group<g2, fp2>("g2"); }
#elif PART == 4
static void reg() {
    widths<1>(); widths<2>(); widths<3>(); widths<4>(); widths<6>(); widths<8>(); widths<12>();
    mulw<2,1,1>(); mulw<4,2,2>(); mulw<8,4,4>(); mulw<12,6,6>(); mulw<4,2,1>(); mulw<4,1,2>(); mulw<6,4,2>(); mulw<8,6,2>(); mulw<5,4,1>();
    addw<1,1,1>(); addw<2,1,1>(); addw<2,2,2>(); addw<3,2,2>(); addw<4,4,4>(); addw<5,4,4>(); addw<6,4,4>(); addw<4,4,1>(); addw<4,2,4>(); addw<6,6,6>(); addw<7,6,6>(); addw<8,8,8>(); addw<12,12,12>(); addw<3,4,4>();
    divw<4,4>(); divw<5,4>(); divw<6,4>(); divw<8,4>(); divw<8,6>(); divw<6,6>(); divw<10,6>(); divw<4,2>(); divw<4,1>(); divw<2,1>(); divw<12,6>(); divw<6,2>(); divw<3,3>();
    modp<6>(); modp<7>(); modp<8>(); modp<10>(); modp<12>();
}
#elif PART == 5
static void reg() {
    OP("fp.isOdd") { return wr(rd<fp>(a[0]).isOdd()); };
    OP("fp.isEven") { return wr(rd<fp>(a[0]).isEven()); };
    OP("fp.isValid") { return wr(rd<fp>(a[0]).isValid()); };
    OP("fp.cmp") { auto c = rd<fp>(a[0]).cmp(rd<fp>(a[1])); return string(c < 0 ? "-1" : c > 0 ? "1" : "0"); };
    OP("fp.toMont") { return wr(rd<fp>(a[0]).toMont()); };
    OP("fp.fromMont") { return wr(rd<fp>(a[0]).fromMont()); };
    OP("fp.phi") { return wr(rd<fp>(a[0]).phi()); };
    OP("fp.div2") { fp x = rd<fp>(a[0]); x.div2(num(a[1])); return wr(x); };
    OP("fp.mul2") { fp x = rd<fp>(a[0]); uint64_t c = x.mul2(); return wr(x) + " " + std::to_string(c); };
    OP("fp.exp4") { return wr(rd<fp>(a[0]).exp<4>(rd<array<uint64_t, 4>>(a[1]))); };
#define L2(nm) OP("l." #nm) { fp x = rd<fp>(a[0]), y = rd<fp>(a[1]), z; nm(&z, &x, &y); return wr(z) + " " + wr(x) + " " + wr(y); }; \
    OP("l." #nm "01") { fp x = rd<fp>(a[0]), y = rd<fp>(a[1]); nm(&x, &x, &y); return wr(x) + " " + wr(y); }; \
    OP("l." #nm "02") { fp x = rd<fp>(a[0]), y = rd<fp>(a[1]); nm(&y, &x, &y); return wr(y) + " " + wr(x); }; \
    OP("l." #nm "12") { fp x = rd<fp>(a[0]), z; nm(&z, &x, &x); return wr(z) + " " + wr(x); }; \
    OP("l." #nm "012") { fp x = rd<fp>(a[0]); nm(&x, &x, &x); return wr(x); };
#define L1(nm) OP("l." #nm) { fp x = rd<fp>(a[0]), z; nm(&z, &x); return wr(z) + " " + wr(x); }; OP("l." #nm "01") { fp x = rd<fp>(a[0]); nm(&x, &x); return wr(x); };
    L2(_add) L2(_subtract) L2(_multiply) L2(_ladd) L2(_lsubtract) L1(_double) L1(_negate) L1(_square) L1(_ldouble)
    OP("Add64") { auto [x, y] = Add64(num(a[0]), num(a[1]), num(a[2])); return std::to_string(x) + " " + std::to_string(y); };
    OP("Sub64") { auto [x, y] = Sub64(num(a[0]), num(a[1]), num(a[2])); return std::to_string(x) + " " + std::to_string(y); };
    OP("Mul64") { auto [x, y] = Mul64(num(a[0]), num(a[1])); return std::to_string(x) + " " + std::to_string(y); };
    OP("fp2.conj") { return wr(rd<fp2>(a[0]).conjugate()); };
    OP("fp2.mulNR") { return wr(rd<fp2>(a[0]).mulByNonResidue()); };
    OP("fp2.mulB") { return wr(rd<fp2>(a[0]).mulByB()); };
    OP("fp2.mulFq") { return wr(rd<fp2>(a[0]).mulByFq(rd<fp>(a[1]))); };
    OP("fp6.mulNR") { return wr(rd<fp6>(a[0]).mulByNonResidue()); };
    OP("fp6.mulBase") { return wr(rd<fp6>(a[0]).mulByBaseField(rd<fp2>(a[1]))); };
    OP("fp6.mulBy01") { return wr(rd<fp6>(a[0]).mulBy01(rd<fp2>(a[1]), rd<fp2>(a[2]))); };
    OP("fp6.mulBy01A") { fp6 x = rd<fp6>(a[0]); x.mulBy01Assign(rd<fp2>(a[1]), rd<fp2>(a[2])); return wr(x); };
    OP("fp6.mulBy01AS") { fp6 x = rd<fp6>(a[0]); fp2* q[] = {&x.c0, &x.c1, &x.c2}; auto i = num(a[1]), j = num(a[2]); x.mulBy01Assign(*q[i], *q[j]); return wr(x); };
    OP("fp6.mulBy1") { return wr(rd<fp6>(a[0]).mulBy1(rd<fp2>(a[1]))); };
    OP("fp12.mulBy014A") { fp12 x = rd<fp12>(a[0]); x.mulBy014Assign(rd<fp2>(a[1]), rd<fp2>(a[2]), rd<fp2>(a[3])); return wr(x); };
    OP("fp12.mulBy014AS") { fp12 x = rd<fp12>(a[0]); fp2* q[] = {&x.c0.c0, &x.c0.c1, &x.c0.c2, &x.c1.c0, &x.c1.c1, &x.c1.c2}; x.mulBy014Assign(*q[num(a[1])], *q[num(a[2])], *q[num(a[3])]); return wr(x); };
    OP("fp12.conj") { return wr(rd<fp12>(a[0]).conjugate()); };
    OP("fp12.fp4Square") { auto [x, y] = fp12::fp4Square(rd<fp2>(a[0]), rd<fp2>(a[1])); return wr(x) + " " + wr(y); };
    OP("fp12.cycSqr") { return wr(rd<fp12>(a[0]).cyclotomicSquare()); };
    OP("fp12.cycSqrA") { fp12 x = rd<fp12>(a[0]); x.cyclotomicSquareAssign(); return wr(x); };
    OP("fp12.cycExp1") { return wr(rd<fp12>(a[0]).cyclotomicExp<1>(rd<array<uint64_t, 1>>(a[1]))); };
    OP("fp12.cycExp4") { return wr(rd<fp12>(a[0]).cyclotomicExp<4>(rd<array<uint64_t, 4>>(a[1]))); };
    OP("fp12.isGtValid") { return wr(rd<fp12>(a[0]).isGtValid()); };
    OP("g1.glv") { return wr(rd<g1>(a[0]).glvEndomorphism()); };
    OP("g1.swu") { auto [x, y] = g1::swuMapG1(rd<fp>(a[0])); return wr(x) + " " + wr(y); };
    OP("g1.iso") { fp x = rd<fp>(a[0]), y = rd<fp>(a[1]); g1::isogenyMapG1(x, y); return wr(x) + " " + wr(y); };
    OP("g2.swu") { auto [x, y] = g2::swuMapG2(rd<fp2>(a[0])); return wr(x) + " " + wr(y); };
    OP("g2.iso") { return wr(rd<g2>(a[0]).isogenyMap()); };
    OP("g2.psi") { return wr(rd<g2>(a[0]).psi()); };
    OP("g2.frob") { return wr(rd<g2>(a[0]).frobeniusMap((int64_t)std::stoll(a[1]))); };
    OP("g2.scale8") { return wr(rd<g2>(a[0]).scale<8>(rd<array<uint64_t, 8>>(a[1]))); };
    auto pairs = [](const V& a) { auto p = rdv<g1>(a[0]); auto q = rdv<g2>(a[1]); vector<std::tuple<g1, g2>> v; for (size_t i = 0; i < p.size(); i++) pairing::add_pair(v, p[i], q[i]); return v; };
    ops["pair.add"] = [pairs](const V& a) { auto v = pairs(a); string s = std::to_string(v.size()); for (auto& [p, q] : v) s += " " + wr(p) + " " + wr(q); return s; };
    ops["pair.calc"] = [pairs](const V& a) {
        auto v = pairs(a); uint64_t k = 0; std::function<void()> y; char mode = a[2][0];
        vector<std::tuple<g1, g2>> v2; pairing::add_pair(v2, g1::one().dbl(), g2::one()); pairing::add_pair(v2, g1::one(), g2::one().dbl().negate());
        if (mode == '3') try { pairing::calculate(v, [&] { throw 1; }); } catch (int) { }
        if (mode == '1') y = [&] { k++; };
        if (mode == '2' || mode == '3') y = [&] { if (++k <= 2) pairing::miller_loop(v2, {}); };
        return wr(pairing::calculate(v, y)); };
    ops["pair.raw"] = [](const V& a) { auto p = rdv<g1>(a[0]); auto q = rdv<g2>(a[1]); vector<std::tuple<g1, g2>> v; for (size_t i = 0; i < p.size(); i++) v.emplace_back(p[i], q[i]); return wr(pairing::calculate(v)); };
    ops["pair.miller"] = [pairs](const V& a) { auto v = pairs(a); std::function<void()> y; return wr(pairing::miller_loop(v, y)); };
    OP("pair.final") { fp12 f = rd<fp12>(a[0]); pairing::final_exponentiation(f); return wr(f); };
    OP("pair.dblstep") { array<fp2, 3> c; g2 r = rd<g2>(a[0]); pairing::doubling_step(c, r); return wr(c) + " " + wr(r); };
    OP("pair.addstep") { array<fp2, 3> c; g2 r = rd<g2>(a[0]); const g2 q = rd<g2>(a[1]); pairing::addition_step(c, r, q); return wr(c) + " " + wr(r) + " " + wr(q); };
    OP("sha") { sha256 s; for (auto& m : msgs(a[0])) { Buf b(m); s.update(b.p.get(), b.n); } return wr(s.digest()); };
    OP("shas") { sha256 s; for (auto& m : msgs(a[0])) s.update(string((const char*)m.data(), m.size())); array<uint8_t, 32> d; s.digest(d.data()); return wr(d); };
    OP("shastr") { return sha256::toString(rd<array<uint8_t, 32>>(a[0])); };
    OP("xmd") { Buf o(vector<uint8_t>(num(a[0]), 0xa5)), i(unhex(a[1])), d(unhex(a[2])); int r = xmd_sh256(o.p.get(), o.n, i.p.get(), i.n, d.p.get(), d.n); return std::to_string(r) + " " + hex(o.p.get(), o.n); };
    OP("hmac") { Buf i(unhex(a[0])), k(unhex(a[1])); Buf m(vector<uint8_t>(32, 0xa5)); int r = hkdf256_hmac(m.p.get(), i.p.get(), i.n, k.p.get(), k.n); return std::to_string(r) + " " + hex(m.p.get(), 32); };
    OP("hkdfx") { Buf s(unhex(a[0])), k(unhex(a[1])); Buf m(vector<uint8_t>(32, 0xa5)); int r = hkdf256_extract(m.p.get(), s.p.get(), s.n, k.p.get(), k.n); return std::to_string(r) + " " + hex(m.p.get(), 32); };
    OP("hkdfe") { Buf o(vector<uint8_t>(num(a[0]), 0xa5)), p(unhex(a[1])), i(unhex(a[2])); int r = hkdf256_expand(o.p.get(), o.n, p.p.get(), i.p.get(), i.n); return std::to_string(r) + " " + hex(o.p.get(), o.n); };
    OP("hkdfxe") { Buf o(vector<uint8_t>(num(a[0]), 0xa5)), k(unhex(a[1])), s(unhex(a[2])), i(unhex(a[3])); int r = hkdf256_extract_expand(o.p.get(), o.n, k.p.get(), k.n, s.p.get(), s.n, i.p.get(), i.n); return std::to_string(r) + " " + hex(o.p.get(), o.n); };
    OP("lamportsk") { Buf o(vector<uint8_t>(255 * 32, 0xa5)), k(unhex(a[0])), s(unhex(a[1])); ikm_to_lamport_sk(o.p.get(), k.p.get(), k.n, s.p.get(), s.n); return hex(o.p.get(), o.n); };
    OP("lamportpk") { Buf o(vector<uint8_t>(32, 0xa5)); parent_sk_to_lamport_pk(o.p.get(), rd<S4>(a[0]), num(a[1])); return hex(o.p.get(), o.n); };
    OP("child") { return wr(derive_child_sk(rd<S4>(a[0]), num(a[1]))); };
    OP("childu") { return wr(derive_child_sk_unhardened(rd<S4>(a[0]), num(a[1]))); };
    OP("childg1") { return wr(derive_child_g1_unhardened(rd<g1>(a[0]), num(a[1]))); };
    OP("childg2") { return wr(derive_child_g2_unhardened(rd<g2>(a[0]), num(a[1]))); };
    OP("seckey") { Buf b(unhex(a[0])); try { return wr(secret_key(span<const uint8_t>(b.p.get(), b.n))); } catch (const std::exception&) { return "throw"; } };
    OP("pubkey") { return wr(public_key(rd<S4>(a[0]))); };
    OP("fromMessage") { Buf b(unhex(a[0])); auto d = unhex(a[1]); try { return wr(fromMessage(span<const uint8_t>(b.p.get(), b.n), string((const char*)d.data(), d.size()))); } catch (const std::exception&) { return "throw"; } };
    OP("sign") { auto m = unhex(a[1]); return wr(bls12_381::sign(rd<S4>(a[0]), m)); };
    OP("verify") { auto m = unhex(a[1]); return wr(verify(rd<g1>(a[0]), m, rd<g2>(a[2]))); };
    OP("aggsk") { auto v = rdv<S4>(a[0]); return wr(aggregate_secret_keys(v)); };
    OP("aggpk") { auto v = rdv<g1>(a[0]); return wr(aggregate_public_keys(span<const g1>(v))); };
    OP("aggsig") { auto v = rdv<g2>(a[0]); return wr(aggregate_signatures(span<const g2>(v))); };
    OP("aggpkf") { auto v = rdv<g1>(a[0]); uint64_t m = num(a[1]); return wr(aggregate_public_keys(span<g1>(v), [](const g1& x) { return x; }, [m](const g1&, size_t i) { return ((m >> (i & 63) ^ i >> 6) & 1) != 0; })); };
    OP("aggsigf") { auto v = rdv<g2>(a[0]); uint64_t m = num(a[1]); return wr(aggregate_signatures(span<g2>(v), [](const g2& x) { return x; }, [m](const g2&, size_t i) { return ((m >> (i & 63) ^ i >> 6) & 1) != 0; })); };
    OP("aggverify") { auto v = rdv<g1>(a[0]); auto m = msgs(a[1]); return wr(aggregate_verify(v, m, rd<g2>(a[2]), a[3] == "1")); };
    OP("skfrom") { return wr(sk_from_bytes(rd<array<uint8_t, 32>>(a[0]), a[1] == "1")); };
    OP("skto") { return wr(sk_to_bytes(rd<S4>(a[0]))); };
    OP("popprove") { return wr(pop_prove(rd<S4>(a[0]))); };
    OP("popverify") { return wr(pop_verify(rd<g1>(a[0]), rd<g2>(a[1]))); };
    OP("popfast") { auto v = rdv<g1>(a[0]); auto m = unhex(a[1]); return wr(pop_fast_aggregate_verify(v, m, rd<g2>(a[2]))); };
    OP("hex2") { auto s = unhex(a[0]); std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); auto r = hexToBytes(std::string_view(p.get(), s.size())); return hex(r.data(), r.size()); };
    OP("hex32") { auto s = unhex(a[0]); return wr(hexToBytes<32>(string((const char*)s.data(), s.size()))); };
    OP("tohex") { Buf s(unhex(a[0])); return bytesToHex(span<const uint8_t>(s.p.get(), s.n)); };
    OP("tohex32") { Buf s(unhex(a[0])); return bytesToHex<32>(span<const uint8_t, 32>(s.p.get(), 32)); };
}
#endif
__attribute__((constructor)) static void reg0() { reg(); }
#if PART == 5
int main(int argc, char** argv) {
    string line;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line); string op, x; V a; ss >> op; while (ss >> x) a.push_back(x);
        auto it = ops.find(op);
        if (it == ops.end()) { std::cout << "noop" << std::endl; continue; }
        string r;
        try { r = it->second(a); } catch (const std::exception& e) { r = string("exception ") + typeid(e).name(); }
        std::cout << r << "\n" << std::flush;
    }
    return 0;
}

#endif
