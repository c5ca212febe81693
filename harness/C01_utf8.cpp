//@ bound: byte sequences of 0..5 bytes (decoder), 0..4 bytes (iterator), every byte value; every 32-bit code point below 0x110000 (encoder)
#include "ref.h"
#include <vector>
#include <utils/Utf8.h>
using namespace drafter::utils::utf8;
typedef std::string::const_iterator It;

// RFC 3629 table 3-7: length of the well-formed sequence at p[0..n), 0 when ill-formed; branch-free
static unsigned wellFormed(const unsigned char* p, size_t n, codepoint& cp)
{
    unsigned b0 = n > 0 ? p[0] : 0, b1 = n > 1 ? p[1] : 0, b2 = n > 2 ? p[2] : 0, b3 = n > 3 ? p[3] : 0;
    int c1 = (b1 & 0xC0) == 0x80, c2 = (b2 & 0xC0) == 0x80, c3 = (b3 & 0xC0) == 0x80;
    int l1 = (n >= 1) & (b0 < 0x80);
    int l2 = (n >= 2) & (b0 >= 0xC2) & (b0 <= 0xDF) & c1;
    int l3 = (n >= 3) & (b0 >= 0xE0) & (b0 <= 0xEF) & c1 & c2 & ((b0 != 0xE0) | (b1 >= 0xA0)) & ((b0 != 0xED) | (b1 <= 0x9F));
    int l4 = (n >= 4) & (b0 >= 0xF0) & (b0 <= 0xF4) & c1 & c2 & c3 & ((b0 != 0xF0) | (b1 >= 0x90)) & ((b0 != 0xF4) | (b1 <= 0x8F));
    cp = l1 * b0 + l2 * (((b0 & 0x1F) << 6) | (b1 & 0x3F)) + l3 * (((b0 & 0x0F) << 12) | ((b1 & 0x3F) << 6) | (b2 & 0x3F))
        + l4 * (((b0 & 7) << 18) | ((b1 & 0x3F) << 12) | ((b2 & 0x3F) << 6) | (b3 & 0x3F));
    return l1 + 2 * l2 + 3 * l3 + 4 * l4;
}

HARNESS(decode)
{
    const std::string s = sym_str("s", 0, 5);
    auto r = decode_one(s.begin(), s.end());
    size_t adv = r.second - s.begin();
    sym_observe("cp", r.first);
    sym_observe("adv", adv);
    if (s.empty()) {
        sym_assert(r.first == invalid && r.second == s.end(), "end of input");
        sym_reach("empty");
        return;
    }
    codepoint cp;
    unsigned n = wellFormed((const unsigned char*)s.data(), s.size(), cp);
    sym_assert(adv >= 1 && adv <= s.size(), "decoding advances by at least one byte and never past the end");
    if (n) {
        sym_reach("well formed");
        sym_assert(r.first == cp, "a well-formed sequence decodes to its code point");
        sym_assert(adv == n, "a well-formed sequence is consumed exactly");
    } else {
        sym_reach("ill formed");
        sym_assert(r.first == replacement, "an ill-formed sequence decodes to U+FFFD");
    }
    sym_assert((r.first < 0xD800) | ((r.first > 0xDFFF) & (r.first <= 0x10FFFF)), "the result is a Unicode scalar value");
}
HARNESS(encode_decode)
{
    codepoint c = sym_u32("cp");
    sym_assume(c < 0x110000 && (c < 0xD800 || c > 0xDFFF));
    std::vector<char> out;
    encode(c, std::back_insert_iterator<std::vector<char> >(out));
    const std::string s(out.begin(), out.end());
    sym_observe("enc", s);
    size_t len = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    sym_assert(s.size() == len, "encoded length");
    codepoint cp;
    sym_assert(wellFormed((const unsigned char*)s.data(), s.size(), cp) == len && cp == c, "the encoding is the well-formed UTF-8 of the code point");
    auto r = decode_one(s.begin(), s.end());
    sym_assert(r.first == c && r.second == s.end(), "decode(encode(c)) == c");
    if (len == 4) sym_reach("4 bytes");
    if (len == 1) sym_reach("1 byte");
}
HARNESS(iterate)
{
    const std::string s = sym_str("s", 0, BOUND(4, 5));
    input_iterator<It> it(s);
    input_iterator<It> e{ s.end(), s.end() };
    std::vector<char> enc;
    size_t n = 0, chars = 0;
    bool allValid = true;
    for (size_t p = 0; p < s.size();) {
        codepoint cp;
        unsigned k = wellFormed((const unsigned char*)s.data() + p, s.size() - p, cp);
        if (!k) {
            allValid = false;
            break;
        }
        p += k;
        ++chars;
    }
    while (it != e) {
        sym_assert(n <= s.size(), "iteration terminates");
        sym_assert(*it != invalid, "no end marker before the end");
        encode(*it, std::back_insert_iterator<std::vector<char> >(enc));
        if (n & 1) it++;
        else ++it;
        ++n;
    }
    sym_observe("n", n);
    if (allValid) {
        sym_reach("valid text");
        sym_assert(n == chars, "one step per character");
        sym_assert(ref::eq(std::string(enc.begin(), enc.end()), s), "re-encoding valid text reproduces it");
    } else
        sym_reach("invalid text");
}
