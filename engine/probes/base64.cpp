// The encoder of binary arrays, on buffers with a single bit set, all bits set, and ascending bytes.
#include <string>
#include <vector>
#include "vt.h"
#include "Output/base64.h"
using namespace hpgem;
static void one(long len, long pat, std::vector<unsigned char>& b) {
    std::string s = Output::Detail::toBase64(b.data(), len);
    vt_emit_s("enc", len, pat, 0, s.c_str());
}
extern "C" void probe_base64() {
    for (long len = 0; len <= 9; ++len) {
        std::vector<unsigned char> b(len + 3, 0);
        one(len, 0, b);
        for (long k = 0; k < 8 * len; ++k) {
            b[k / 8] = 1u << (k % 8);
            one(len, 1 + k, b);
            b[k / 8] = 0;
        }
        for (long k = 0; k < len; ++k) b[k] = 255;
        one(len, 1000, b);
        for (long v = 0; v < 26 && len; ++v) {
            for (long k = 0; k < len; ++k) b[k] = v * 37 + 11 * k;
            one(len, 1001 + v, b);
        }
    }
    vt_emit_i("bigendian", 0, 0, 0, Output::Detail::isBigEndian());
}
