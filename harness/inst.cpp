// Explicit instantiations of the library's own templates, so that their real bodies appear in the IR.
#include <bls12-381/bls12-381.hpp>
#include <functional>
namespace bls12_381 {
template fp fp::exp<1>(const std::array<uint64_t, 1>&) const;
template fp fp::exp<4>(const std::array<uint64_t, 4>&) const;
template fp fp::exp<6>(const std::array<uint64_t, 6>&) const;
template fp2 fp2::exp<1>(const std::array<uint64_t, 1>&) const;
template fp2 fp2::exp<6>(const std::array<uint64_t, 6>&) const;
template fp6 fp6::exp<1>(const std::array<uint64_t, 1>&) const;
template fp6 fp6::exp<6>(const std::array<uint64_t, 6>&) const;
template fp12 fp12::exp<1>(const std::array<uint64_t, 1>&) const;
template fp12 fp12::exp<6>(const std::array<uint64_t, 6>&) const;
template fp12 fp12::cyclotomicExp<1>(const std::array<uint64_t, 1>&) const;
template fp12 fp12::cyclotomicExp<4>(const std::array<uint64_t, 4>&) const;
template g1 g1::scale<1>(const std::array<uint64_t, 1>&) const;
template g1 g1::scale<2>(const std::array<uint64_t, 2>&) const;
template g1 g1::scale<4>(const std::array<uint64_t, 4>&) const;
template g1 g1::scale<6>(const std::array<uint64_t, 6>&) const;
template g2 g2::scale<1>(const std::array<uint64_t, 1>&) const;
template g2 g2::scale<2>(const std::array<uint64_t, 2>&) const;
template g2 g2::scale<4>(const std::array<uint64_t, 4>&) const;
template g2 g2::scale<8>(const std::array<uint64_t, 8>&) const;
template void scalar::toBytesLE<1>(const std::array<uint64_t, 1>&, std::span<uint8_t, 8>);
template std::array<uint8_t, 8> scalar::toBytesLE<1>(const std::array<uint64_t, 1>&);
template void scalar::toBytesBE<1>(const std::array<uint64_t, 1>&, std::span<uint8_t, 8>);
template std::array<uint8_t, 8> scalar::toBytesBE<1>(const std::array<uint64_t, 1>&);
template void scalar::fromBytesLE<1>(const std::span<const uint8_t, 8>&, std::array<uint64_t, 1>&);
template std::array<uint64_t, 1> scalar::fromBytesLE<1>(const std::span<const uint8_t, 8>&);
template void scalar::fromBytesBE<1>(const std::span<const uint8_t, 8>&, std::array<uint64_t, 1>&);
template std::array<uint64_t, 1> scalar::fromBytesBE<1>(const std::span<const uint8_t, 8>&);
template std::strong_ordering scalar::cmp<1>(const std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&);
template bool scalar::equal<1>(const std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&);
template void scalar::rsh<1>(std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&, uint64_t);
template void scalar::toBytesLE<2>(const std::array<uint64_t, 2>&, std::span<uint8_t, 16>);
template std::array<uint8_t, 16> scalar::toBytesLE<2>(const std::array<uint64_t, 2>&);
template void scalar::toBytesBE<2>(const std::array<uint64_t, 2>&, std::span<uint8_t, 16>);
template std::array<uint8_t, 16> scalar::toBytesBE<2>(const std::array<uint64_t, 2>&);
template void scalar::fromBytesLE<2>(const std::span<const uint8_t, 16>&, std::array<uint64_t, 2>&);
template std::array<uint64_t, 2> scalar::fromBytesLE<2>(const std::span<const uint8_t, 16>&);
template void scalar::fromBytesBE<2>(const std::span<const uint8_t, 16>&, std::array<uint64_t, 2>&);
template std::array<uint64_t, 2> scalar::fromBytesBE<2>(const std::span<const uint8_t, 16>&);
template std::strong_ordering scalar::cmp<2>(const std::array<uint64_t, 2>&, const std::array<uint64_t, 2>&);
template bool scalar::equal<2>(const std::array<uint64_t, 2>&, const std::array<uint64_t, 2>&);
template void scalar::rsh<2>(std::array<uint64_t, 2>&, const std::array<uint64_t, 2>&, uint64_t);
template void scalar::toBytesLE<4>(const std::array<uint64_t, 4>&, std::span<uint8_t, 32>);
template std::array<uint8_t, 32> scalar::toBytesLE<4>(const std::array<uint64_t, 4>&);
template void scalar::toBytesBE<4>(const std::array<uint64_t, 4>&, std::span<uint8_t, 32>);
template std::array<uint8_t, 32> scalar::toBytesBE<4>(const std::array<uint64_t, 4>&);
template void scalar::fromBytesLE<4>(const std::span<const uint8_t, 32>&, std::array<uint64_t, 4>&);
template std::array<uint64_t, 4> scalar::fromBytesLE<4>(const std::span<const uint8_t, 32>&);
template void scalar::fromBytesBE<4>(const std::span<const uint8_t, 32>&, std::array<uint64_t, 4>&);
template std::array<uint64_t, 4> scalar::fromBytesBE<4>(const std::span<const uint8_t, 32>&);
template std::strong_ordering scalar::cmp<4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template bool scalar::equal<4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template void scalar::rsh<4>(std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&, uint64_t);
template void scalar::toBytesLE<6>(const std::array<uint64_t, 6>&, std::span<uint8_t, 48>);
template std::array<uint8_t, 48> scalar::toBytesLE<6>(const std::array<uint64_t, 6>&);
template void scalar::toBytesBE<6>(const std::array<uint64_t, 6>&, std::span<uint8_t, 48>);
template std::array<uint8_t, 48> scalar::toBytesBE<6>(const std::array<uint64_t, 6>&);
template void scalar::fromBytesLE<6>(const std::span<const uint8_t, 48>&, std::array<uint64_t, 6>&);
template std::array<uint64_t, 6> scalar::fromBytesLE<6>(const std::span<const uint8_t, 48>&);
template void scalar::fromBytesBE<6>(const std::span<const uint8_t, 48>&, std::array<uint64_t, 6>&);
template std::array<uint64_t, 6> scalar::fromBytesBE<6>(const std::span<const uint8_t, 48>&);
template std::strong_ordering scalar::cmp<6>(const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template bool scalar::equal<6>(const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template void scalar::rsh<6>(std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&, uint64_t);
template void scalar::toBytesLE<8>(const std::array<uint64_t, 8>&, std::span<uint8_t, 64>);
template std::array<uint8_t, 64> scalar::toBytesLE<8>(const std::array<uint64_t, 8>&);
template void scalar::toBytesBE<8>(const std::array<uint64_t, 8>&, std::span<uint8_t, 64>);
template std::array<uint8_t, 64> scalar::toBytesBE<8>(const std::array<uint64_t, 8>&);
template void scalar::fromBytesLE<8>(const std::span<const uint8_t, 64>&, std::array<uint64_t, 8>&);
template std::array<uint64_t, 8> scalar::fromBytesLE<8>(const std::span<const uint8_t, 64>&);
template void scalar::fromBytesBE<8>(const std::span<const uint8_t, 64>&, std::array<uint64_t, 8>&);
template std::array<uint64_t, 8> scalar::fromBytesBE<8>(const std::span<const uint8_t, 64>&);
template std::strong_ordering scalar::cmp<8>(const std::array<uint64_t, 8>&, const std::array<uint64_t, 8>&);
template bool scalar::equal<8>(const std::array<uint64_t, 8>&, const std::array<uint64_t, 8>&);
template void scalar::rsh<8>(std::array<uint64_t, 8>&, const std::array<uint64_t, 8>&, uint64_t);
template std::array<uint64_t, 1> scalar::add<1, 1, 1>(const std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&);
template std::array<uint64_t, 2> scalar::add<2, 1, 1>(const std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&);
template std::array<uint64_t, 4> scalar::add<4, 4, 4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 4> scalar::add<4, 2, 4>(const std::array<uint64_t, 2>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 5> scalar::add<5, 4, 4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 6> scalar::add<6, 4, 6>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 6>&);
template std::array<uint64_t, 6> scalar::add<6, 6, 6>(const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template std::array<uint64_t, 7> scalar::add<7, 6, 6>(const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template std::array<uint64_t, 8> scalar::add<8, 8, 8>(const std::array<uint64_t, 8>&, const std::array<uint64_t, 8>&);
template std::array<uint64_t, 2> scalar::add<2, 4, 4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 2> scalar::multiply<2, 1, 1>(const std::array<uint64_t, 1>&, const std::array<uint64_t, 1>&);
template std::array<uint64_t, 5> scalar::multiply<5, 4, 1>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 1>&);
template std::array<uint64_t, 6> scalar::multiply<6, 4, 2>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 2>&);
template std::array<uint64_t, 8> scalar::multiply<8, 4, 4>(const std::array<uint64_t, 4>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 7> scalar::multiply<7, 2, 4>(const std::array<uint64_t, 2>&, const std::array<uint64_t, 4>&);
template std::array<uint64_t, 12> scalar::multiply<12, 6, 6>(const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template std::string bytesToHex<1>(const std::span<const uint8_t, 1>&);
template void hexToBytes<1>(const std::string&, std::span<uint8_t, 1>);
template std::array<uint8_t, 1> hexToBytes<1>(const std::string&);
template std::string bytesToHex<32>(const std::span<const uint8_t, 32>&);
template void hexToBytes<32>(const std::string&, std::span<uint8_t, 32>);
template std::array<uint8_t, 32> hexToBytes<32>(const std::string&);
template std::string bytesToHex<48>(const std::span<const uint8_t, 48>&);
template void hexToBytes<48>(const std::string&, std::span<uint8_t, 48>);
template std::array<uint8_t, 48> hexToBytes<48>(const std::string&);
template std::string bytesToHex<96>(const std::span<const uint8_t, 96>&);
template void hexToBytes<96>(const std::string&, std::span<uint8_t, 96>);
template std::array<uint8_t, 96> hexToBytes<96>(const std::string&);
template void bn_divn_safe<8, 4>(std::array<uint64_t, 8>&, std::array<uint64_t, 4>&, const std::array<uint64_t, 8>&, const std::array<uint64_t, 4>&);
template void bn_divn_safe<6, 6>(std::array<uint64_t, 6>&, std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&, const std::array<uint64_t, 6>&);
template fp fp::modPrime<6>(const std::array<uint64_t, 6>&);


}
// aggregation over objects that carry a key / signature, with a selection: every accessor, every predicate
struct dv_item { uint64_t w[2]; };
struct dv_key { bls12_381::g1 operator()(const dv_item&) const; };
struct dv_sig { bls12_381::g2 operator()(const dv_item&) const; };
struct dv_sel { bool operator()(const dv_item&, size_t) const; };
bls12_381::g1 dv_aggregate_keys(std::span<dv_item> s, const dv_key& f, const dv_sel& p) { return bls12_381::aggregate_public_keys(s, f, p); }
bls12_381::g2 dv_aggregate_sigs(std::span<dv_item> s, const dv_sig& f, const dv_sel& p) { return bls12_381::aggregate_signatures(s, f, p); }
