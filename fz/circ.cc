// circular_buffer.c against a byte deque (C01, C02)
#include "common.h"
extern "C" {
#include "circular_buffer.h"
}
using namespace fz;
static std::string hex(const std::vector<uint8_t>& v) { std::string s; char b[4]; for (auto x : v) { snprintf(b, 4, "%02x", x); s += b; } return s; }

void history()
{
    uint32_t size = chance(10) ? rnd(1, 3) : rnd(2, 24);
    // exact allocation: the sanitizer sees any access outside
    uint8_t* mem = (uint8_t*) malloc(size);
    for (uint32_t i = 0; i < size; ++i) mem[i] = 0xEE;
    circ_buf_t cb;
    memset(&cb, 0xA5, sizeof(cb));
    circ_buf_init(&cb, mem, size);
    log("init size=%u", size);
    std::deque<uint8_t> m;
    uint8_t next = 1;
    int ops = rnd(1, 60);
    auto queries = [&](const char* w, const char* props) {
        EXPECT(circ_buf_in_use(&cb) == m.size(), props, "%s: in use %u, %zu stored", w, circ_buf_in_use(&cb), m.size());
        EXPECT(circ_buf_available(&cb) == size - 1 - m.size(), props, "%s: available %u with %zu of %u stored", w, circ_buf_available(&cb), m.size(), size);
    };
    auto whole = [&](const char* w, const char* props) {
        std::vector<uint8_t> all(m.begin(), m.end());
        std::vector<uint8_t> got(m.size() + 1, 0);
        uint32_t n = 99;
        uint8_t* t = (uint8_t*) malloc(m.size() + 1);
        int r = circ_buf_read(&cb, t, m.size() + 1, &n);
        EXPECT(r == 0 && n == m.size(), props, "%s: reading all gives %d, %u bytes of %zu", w, r, n, m.size());
        got.assign(t, t + n);
        free(t);
        EXPECT(got == all, props, "%s: stored bytes are %s, expected %s", w, hex(got).c_str(), hex(all).c_str());
    };
    queries("init", "C01");
    while (ops--) {
        switch (rnd(8)) {
        case 0: case 1: case 2: {
            uint32_t len = rnd(0, size + 1);
            if (chance(60)) len = rnd(0, size - 1 - m.size());
            uint8_t *s1 = (uint8_t*) 1, *s2 = (uint8_t*) 1;
            uint32_t l1 = 77, l2 = 77;
            circ_buf_t before = cb;
            std::vector<uint8_t> mb(mem, mem + size);
            int r = circ_buf_alloc(&cb, len, &s1, &l1, &s2, &l2);
            log("alloc %u -> %d", len, r);
            if (len > size - 1 - m.size()) {
                EXPECT(r == ENOMEM, "C02,C01", "alloc of %u with %zu free gives %d", len, size - 1 - m.size(), r);
                EXPECT(before.start_ind == cb.start_ind && before.stop_ind == cb.stop_ind && before.buffer == cb.buffer && before.size == cb.size,
                       "C02,C01", "failed alloc changed the buffer");
                EXPECT(!memcmp(mb.data(), mem, size), "C02,C01", "failed alloc changed stored bytes");
                break;
            }
            EXPECT(r == 0, "C02,C01", "alloc of %u with %zu free gives %d", len, size - 1 - m.size(), r);
            EXPECT(!memcmp(mb.data(), mem, size), "C02,C01", "alloc changed stored bytes");
            EXPECT(l1 <= len && l1 + l2 == len, "C02,C01", "segments %u + %u for %u", l1, l2, len);
            EXPECT(len == 0 || l1 > 0, "C02", "first segment empty for %u", len);
            EXPECT(l1 == 0 || (s1 >= mem && s1 + l1 <= mem + size), "C02,C01", "first segment out of bounds");
            EXPECT(l2 == 0 || (s2 >= mem && s2 + l2 <= mem + size), "C02,C01", "second segment out of bounds");
            for (uint32_t i = 0; i < l1; ++i) { s1[i] = next; m.push_back(next++); }
            for (uint32_t i = 0; i < l2; ++i) { s2[i] = next; m.push_back(next++); }
            queries("alloc", "C02,C01");
            whole("alloc", "C02,C01");
            break;
        }
        case 3: {
            uint32_t n = rnd(0, size + 2), left = 777;
            bool q = chance(70);
            int r = circ_buf_free(&cb, n, q ? &left : 0);
            log("free %u -> %d", n, r);
            for (uint32_t i = 0; i < n && !m.empty(); ++i) m.pop_front();
            EXPECT(r == 0, "C01", "free gives %d", r);
            EXPECT(!q || left == m.size(), "C01", "free reports %u left, %zu are", left, m.size());
            queries("free", "C01"); whole("free", "C01");
            break;
        }
        case 4: {
            uint32_t n = rnd(0, size + 1);
            circ_buf_trim(&cb, n);
            log("trim %u", n);
            while (m.size() > n) m.pop_back();
            queries("trim", "C01"); whole("trim", "C01");
            break;
        }
        case 5: {
            uint32_t off = rnd(0, m.size() + 1), n = rnd(0, size + 1), got = 777;
            if (off > m.size() && chance(80)) off = m.size();
            uint32_t fit = off <= m.size() ? std::min<size_t>(n, m.size() - off) : 0;
            uint8_t* t = (uint8_t*) malloc(fit ? fit : 1);
            bool q = chance(80);
            int r = circ_buf_read_offset(&cb, off, t, n, q ? &got : 0);
            log("read_offset %u %u -> %d", off, n, r);
            if (off > m.size()) { EXPECT(r == EINVAL, "C01", "read behind the data gives %d", r); free(t); break; }
            EXPECT(r == 0, "C01", "read_offset gives %d", r);
            EXPECT(!q || got == fit, "C01", "read_offset reads %u of %u", got, fit);
            std::vector<uint8_t> a(t, t + fit), b(m.begin() + off, m.begin() + off + fit);
            free(t);
            EXPECT(a == b, "C01", "read_offset %u gives %s, stored %s", off, hex(a).c_str(), hex(b).c_str());
            queries("read", "C01");
            break;
        }
        case 6: {
            uint32_t n = rnd(0, size + 1), got = 777, fit = std::min<size_t>(n, m.size());
            uint8_t* t = (uint8_t*) malloc(fit ? fit : 1);
            int r = circ_buf_read(&cb, t, n, &got);
            log("read %u -> %d", n, r);
            EXPECT(r == 0 && got == fit, "C01", "read gives %d, %u of %u", r, got, fit);
            std::vector<uint8_t> a(t, t + fit), b(m.begin(), m.begin() + fit);
            free(t);
            EXPECT(a == b, "C01", "read gives %s, stored %s", hex(a).c_str(), hex(b).c_str());
            queries("read", "C01");
            break;
        }
        default: {
            uint32_t n = rnd(0, size + 1), l1 = 77, l2 = 77, fit = std::min<size_t>(n, m.size());
            uint8_t *s1 = (uint8_t*) 1, *s2 = (uint8_t*) 1;
            int r = circ_buf_read_segment(&cb, n, &s1, &l1, &s2, &l2);
            log("read_segment %u -> %d", n, r);
            EXPECT(r == 0 && l1 <= fit && l1 + l2 == fit, "C01", "read_segment gives %d, %u + %u of %u", r, l1, l2, fit);
            EXPECT(l1 == 0 || (s1 >= mem && s1 + l1 <= mem + size), "C01", "first read segment out of bounds");
            EXPECT(l2 == 0 || (s2 >= mem && s2 + l2 <= mem + size), "C01", "second read segment out of bounds");
            std::vector<uint8_t> a(s1, s1 + l1), b(m.begin(), m.begin() + fit);
            if (l2) a.insert(a.end(), s2, s2 + l2);
            EXPECT(a == b, "C01", "read_segment gives %s, stored %s", hex(a).c_str(), hex(b).c_str());
            queries("read", "C01");
        }
        }
    }
    free(mem);
}
