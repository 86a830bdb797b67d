// Minimal stand-in for PicoSHA2 (not installed here): the two functions FairMQ uses. Not SHA-256.
#ifndef VERIF_STUB_PICOSHA2_H
#define VERIF_STUB_PICOSHA2_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace picosha2 {
static const std::size_t k_digest_size = 32;
template<typename It, typename Out>
void hash256(It first, It last, Out o, Out oe)
{
    std::uint64_t h = 1469598103934665603ull;
    for (; first != last; ++first) { h ^= static_cast<unsigned char>(*first); h *= 1099511628211ull; }
    for (; o != oe; ++o) { *o = static_cast<unsigned char>(h >> 24); h ^= h >> 13; h *= 1099511628211ull; }
}
template<typename It>
std::string bytes_to_hex_string(It first, It last)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for (; first != last; ++first) { unsigned char c = static_cast<unsigned char>(*first); s += d[c >> 4]; s += d[c & 15]; }
    return s;
}
}
#endif
