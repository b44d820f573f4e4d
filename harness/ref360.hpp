// Independent reference interpreter for the System/360 instruction set, written from the
// architecture ("Principles of Operation"), not from the simulator's microcode.
#pragma once
#include <stdint.h>
#include <string.h>
#include <vector>
#include <set>
#include <string>
#include <utility>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum {
    X_OPER = 1, X_PRIV = 2, X_EXEC = 3, X_PROT = 4, X_ADDR = 5, X_SPEC = 6, X_DATA = 7,
    X_FXOV = 8, X_FXDV = 9, X_DCOV = 10, X_DCDV = 11, X_EXOV = 12, X_EXUN = 13, X_SIGN = 14, X_FPDV = 15
};

#ifndef REF_MODEL
#ifdef M2030
#define REF_MODEL 2030
#else
#define REF_MODEL 2050
#endif
#endif
struct Ref360 {
    // configuration
    uint32_t memsize = 65536;
    bool     has_fp = true;
    // state
    std::vector<uint8_t> mem;
    uint8_t  skey[128];          // storage keys, one per 2K block (upper nibble unused, value 0..15)
    uint32_t r[16];
    uint64_t f[4];
    uint8_t  sysmask = 0, key = 0, amwp = 0, cc = 0, pm = 0, ilc = 0;
    uint32_t ic = 0;
    // outcome of last step
    int      trap = 0;           // 0 none, 1 program, 2 svc
    std::set<int> codes;         // acceptable program interruption codes for the last trap
    std::set<uint32_t> dcare_mem;   // bytes with unpredictable content
    std::set<int> dcare_reg, dcare_fpr;
    bool     dcare_cc = false;
    bool     unpred = false;     // generator should discard the instruction (result not architecturally defined)
    bool     dcare_ilc = false;
    // bookkeeping for the monitors
    std::set<int> st_unused;

    Ref360() : mem(65536, 0) { memset(skey, 0, sizeof skey); memset(r, 0, sizeof r); memset(f, 0, sizeof f); }

    bool ascii() const { return amwp & 8; }
    bool problem() const { return amwp & 1; }

    struct Trap { };

    // ---- exceptions ------------------------------------------------------
    void cond(int c) { codes.insert(c); }
    [[noreturn]] void raise(int c) { codes.insert(c); throw Trap(); }
    void check_any() { if (!codes.empty()) throw Trap(); }

    // ---- storage ---------------------------------------------------------
    bool valid(uint32_t a) const { return (a & 0xffffff) < memsize; }
    bool prot(uint32_t a) const { return key != 0 && skey[(a & 0xffffff) >> 11] != key; }
    void chk_fetch(uint32_t a, int n) { for (int i = 0; i < n; i++) if (!valid(a + i)) { cond(X_ADDR); return; } }
    void chk_store(uint32_t a, int n) {
        for (int i = 0; i < n; i++) {
            uint32_t b = (a + i) & 0xffffff;
            if (!valid(b)) cond(X_ADDR);
            else if (prot(b)) cond(X_PROT);
        }
    }
    void chk_align(uint32_t a, int n) { if (a & (n - 1)) cond(X_SPEC); }
    uint8_t  ld1(uint32_t a) const { return mem[a & 0xffffff]; }
    uint32_t ldn(uint32_t a, int n) const { uint32_t v = 0; for (int i = 0; i < n; i++) v = (v << 8) | ld1(a + i); return v; }
    uint64_t ld8(uint32_t a) const { return ((uint64_t)ldn(a, 4) << 32) | ldn(a + 4, 4); }
    std::vector<uint32_t> wlog;  // addresses stored by the last instruction
    void     st1(uint32_t a, uint8_t v) { wlog.push_back(a & 0xffffff); mem[a & 0xffffff] = v; }
    void     stn(uint32_t a, uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) { st1(a + i, v & 0xff); v >>= 8; } }
    void     st8(uint32_t a, uint64_t v) { stn(a, v >> 32, 4); stn(a + 4, (uint32_t)v, 4); }

    uint32_t fetchop(uint32_t a, int n, int al) { chk_align(a, al); chk_fetch(a, n); check_any(); return ldn(a, n); }
    void     storeop(uint32_t a, uint32_t v, int n, int al) { chk_align(a, al); chk_store(a, n); check_any(); stn(a, v, n); }

    // ---- PSW -------------------------------------------------------------
    void store_psw(uint32_t a, uint16_t code) {
        st1(a, sysmask); st1(a + 1, (key << 4) | amwp); stn(a + 2, code, 2);
        st1(a + 4, (ilc << 6) | (cc << 4) | pm); stn(a + 5, ic & 0xffffff, 3);
    }
    void load_psw(uint32_t a) {
        sysmask = ld1(a); key = ld1(a + 1) >> 4; amwp = ld1(a + 1) & 15;
        cc = (ld1(a + 4) >> 4) & 3; pm = ld1(a + 4) & 15; ic = ldn(a + 5, 3);
    }
    void set_cc(int c) { cc = c; }
    void set_cc_s(int32_t v) { cc = v == 0 ? 0 : v < 0 ? 1 : 2; }

    void fxov() { if (pm & 8) codes.insert(X_FXOV); }   // completes, then interrupts
    void dcov() { if (pm & 4) codes.insert(X_DCOV); }
    void exun() { if (pm & 2) codes.insert(X_EXUN); }
    void sign() { if (pm & 1) codes.insert(X_SIGN); }

    // ---- one instruction -------------------------------------------------
    // Returns the number of halfwords of the instruction at ic.
    void step() {
        trap = 0; codes.clear(); unpred = false; dcare_cc = false; dcare_ilc = false;
        wlog.clear(); dcare_mem.clear(); dcare_reg.clear(); dcare_fpr.clear();
        uint32_t pc = ic;
        try {
            if ((pc & 1) || !valid(pc)) {
                ilc = 0; dcare_ilc = true;
                if (pc & 1) cond(X_SPEC);
                if (!valid(pc)) cond(X_ADDR);
                throw Trap();
            }
            uint8_t op = ld1(pc);
            int len = op < 0x40 ? 1 : op < 0xc0 ? 2 : 3;

            ilc = len;
            ic = (pc + 2 * len) & 0xffffff;
            if (!valid(pc + 2 * len - 1)) { dcare_ilc = true; raise(X_ADDR); }
            uint8_t b[6];
            for (int i = 0; i < 6; i++) b[i] = i < 2 * len ? ld1(pc + i) : 0;
            exec(b, false);
            if (!codes.empty()) throw Trap();
        } catch (Trap &) {
            trap = trap == 2 ? 2 : 1;
            if (trap == 1) {
                if (codes.count(X_OPER) && (ic >> 8) != (pc >> 8)) known(2030, "operation-exception-before-256-boundary");
                store_psw(0x28, *codes.begin());
                uint8_t sc = cc; (void)sc;
                load_psw(0x68);
            }
        }
    }

    uint32_t ea(uint16_t bd, int x) const {
        uint32_t a = bd & 0xfff;
        if (bd >> 12) a += r[bd >> 12];
        if (x) a += r[x];
        return a & 0xffffff;
    }

    static bool defined(uint8_t op) {
        if (op >= 0x04 && op <= 0x0a) return true;
        if (op >= 0x10 && op <= 0x1f) return true;
        if ((op >= 0x20 && op <= 0x24) || (op >= 0x28 && op <= 0x2f)) return true;
        if ((op >= 0x30 && op <= 0x34) || (op >= 0x38 && op <= 0x3f)) return true;
        if (op >= 0x40 && op <= 0x4c) return true;
        if (op == 0x4e || op == 0x4f || op == 0x50) return true;
        if (op >= 0x54 && op <= 0x5f) return true;
        if (op == 0x60 || (op >= 0x68 && op <= 0x6f) || op == 0x70 || (op >= 0x78 && op <= 0x7f)) return true;
        if (op == 0x80 || (op >= 0x82 && op <= 0x98) || (op >= 0x9c && op <= 0x9f)) return true;
        if ((op >= 0xd1 && op <= 0xd7) || (op >= 0xdc && op <= 0xdf)) return true;
        if ((op >= 0xf1 && op <= 0xf3) || (op >= 0xf8 && op <= 0xfd)) return true;
        return false;
    }
    static bool is_fp(uint8_t op) { int h = op >> 4; return h == 2 || h == 3 || h == 6 || h == 7; }
    static bool is_priv(uint8_t op) {
        return op == 0x08 || op == 0x09 || op == 0x80 || op == 0x82 || op == 0x83 || op == 0x84 || op == 0x85 ||
               (op >= 0x9c && op <= 0x9f);
    }

    void also(uint32_t a, int n, bool align, int mask = 7) {
        if (align && (a & mask)) cond(X_SPEC);
        for (int i = 0; i < n; i++) { if (!valid(a + i)) { cond(X_ADDR); break; } }
        for (int i = 0; i < n; i++) if (valid(a + i) && prot(a + i)) { cond(X_PROT); break; }
    }

    void exec(const uint8_t *b, bool inex) {
        uint8_t op = b[0];
        if (op == 0xe8) known(2050, "undefined-operation-E8");
        int r1 = b[1] >> 4, r2 = b[1] & 15;
        uint16_t bd1 = (b[2] << 8) | b[3], bd2 = (b[4] << 8) | b[5];
        // Several conditions may exist for one instruction; only one is reported and the choice is not
        // defined, so the conditions that hold for the operand addresses are acceptable as well.
        if (!defined(op) || (is_fp(op) && !has_fp)) {
            if (op >= 0x40) also(ea(bd1, op < 0x80 ? r2 : 0), op >= 0xc0 ? 256 : 8, op < 0xc0);
            if (op >= 0xc0) also(ea(bd2, 0), 256, false);
            if (((op >= 0x20 && op < 0x40) || (op >= 0x60 && op < 0x80)) && ((r1 & 9) || (op < 0x40 && (r2 & 9)))) cond(X_SPEC);
            raise(X_OPER);
        }
        if (is_priv(op) && problem()) {
            if (op >= 0x80) also(ea(bd1, 0), 8, true);
            if (op == 0x84 || op == 0x85 || op == 0x83) cond(X_OPER);   // optional features
            if (op == 0x08 || op == 0x09) also(r[r2], 1, true, 15);
            raise(X_PRIV);
        }
        if (op < 0x40) rr(op, r1, r2);
        else if (op < 0x80) {
            if (op >= 0x60) fp_rx(op, r1, ea(bd1, r2));
            else rx(op, r1, ea(bd1, r2), inex);
        }
        else if (op < 0xc0) rs(op, r1, r2, b[1], bd1);
        else ss(op, b[1], ea(bd1, 0), ea(bd2, 0));
    }

    int32_t add32(uint32_t a, uint32_t b) {
        uint32_t s = a + b;
        if ((~(a ^ b) & (a ^ s)) >> 31) { cc = 3; fxov(); } else set_cc_s((int32_t)s);
        return (int32_t)s;
    }
    int32_t sub32(uint32_t a, uint32_t b) {
        uint32_t s = a - b;
        if (((a ^ b) & (a ^ s)) >> 31) { cc = 3; fxov(); } else set_cc_s((int32_t)s);
        return (int32_t)s;
    }
    void cmp32(int32_t a, int32_t b) { cc = a == b ? 0 : a < b ? 1 : 2; }
    void cmpu(uint32_t a, uint32_t b) { cc = a == b ? 0 : a < b ? 1 : 2; }
    void addl(int i, uint32_t b) { uint32_t s = r[i] + b; cc = (s ? 1 : 0) | (s < b ? 2 : 0); r[i] = s; }
    void subl(int i, uint32_t b) { uint32_t a = r[i], s = a - b; cc = (s ? 1 : 0) | (a >= b ? 2 : 0); r[i] = s; }
    void mul(int i, uint32_t b) {
        int64_t p = (int64_t)(int32_t)r[i + 1] * (int32_t)b;
        r[i] = (uint32_t)((uint64_t)p >> 32); r[i + 1] = (uint32_t)p;
    }
    void div(int i, uint32_t b) {
        i128 n = (int64_t)(((uint64_t)r[i] << 32) | r[i + 1]);
        i128 d = (int32_t)b;
        if (d == 0) raise(X_FXDV);
        i128 q = n / d, m = n % d;
        if (q > 2147483647LL || q < -2147483648LL) raise(X_FXDV);
        r[i] = (uint32_t)(int32_t)m; r[i + 1] = (uint32_t)(int32_t)q;
    }
    uint32_t link() { return ((uint32_t)((ilc << 6) | (cc << 4) | pm) << 24) | ic; }

    void rr(uint8_t op, int r1, int r2) {
        if (op >= 0x20) { fp_rr(op, r1, r2); return; }
        uint32_t v2 = r[r2];
        switch (op) {
        case 0x04: cc = (r[r1] >> 28) & 3; pm = (r[r1] >> 24) & 15; break;
        case 0x05: { uint32_t t = v2 & 0xffffff; r[r1] = link(); if (r2) ic = t; break; }
        case 0x06: r[r1]--; if (r2 && r[r1]) ic = v2 & 0xffffff; break;
        case 0x07: if ((r1 << cc) & 8) if (r2) ic = v2 & 0xffffff; break;
        case 0x08: if (v2 & 15) cond(X_SPEC); if (!valid(v2)) cond(X_ADDR); check_any(); skey[(v2 & 0xffffff) >> 11] = (r[r1] >> 4) & 15; break;
        case 0x09: if (v2 & 15) cond(X_SPEC); if (!valid(v2)) cond(X_ADDR); check_any(); r[r1] = (r[r1] & 0xffffff00) | (skey[(v2 & 0xffffff) >> 11] << 4); break;
        case 0x0a: store_psw(0x20, (r1 << 4) | r2); load_psw(0x60); trap = 2; break;
        case 0x10: { if (v2 == 0x80000000u) { r[r1] = v2; cc = 3; fxov(); } else { int32_t v = (int32_t)v2; if (v < 0) v = -v; r[r1] = v; cc = v ? 2 : 0; } break; }
        case 0x11: { int32_t v = (int32_t)v2; if (v > 0) v = -v; r[r1] = v; cc = v ? 1 : 0; break; }
        case 0x12: r[r1] = v2; set_cc_s((int32_t)v2); break;
        case 0x13: { if (v2 == 0x80000000u) { r[r1] = v2; cc = 3; fxov(); } else { r[r1] = 0u - v2; set_cc_s((int32_t)r[r1]); } break; }
        case 0x14: r[r1] &= v2; cc = r[r1] != 0; break;
        case 0x15: cmpu(r[r1], v2); break;
        case 0x16: r[r1] |= v2; cc = r[r1] != 0; break;
        case 0x17: r[r1] ^= v2; cc = r[r1] != 0; break;
        case 0x18: r[r1] = v2; break;
        case 0x19: cmp32((int32_t)r[r1], (int32_t)v2); break;
        case 0x1a: r[r1] = add32(r[r1], v2); break;
        case 0x1b: r[r1] = sub32(r[r1], v2); break;
        case 0x1c: if (r1 & 1) raise(X_SPEC); mul(r1, v2); break;
        case 0x1d: if (r1 & 1) raise(X_SPEC); div(r1, v2); break;
        case 0x1e: addl(r1, v2); break;
        case 0x1f: subl(r1, v2); break;
        }
    }

    void rx(uint8_t op, int r1, uint32_t a, bool inex) {
        switch (op) {
        case 0x40: storeop(a, r[r1], 2, 2); break;
        case 0x41: r[r1] = a; break;
        case 0x42: storeop(a, r[r1], 1, 1); break;
        case 0x43: { uint32_t v = fetchop(a, 1, 1); r[r1] = (r[r1] & 0xffffff00) | v; break; }
        case 0x44: {
            if (inex) raise(X_EXEC);
            if (a & 1) cond(X_SPEC);
            if (!valid(a) || !valid(a + 1)) cond(X_ADDR);
            check_any();
            uint8_t b[6];
            uint8_t top = ld1(a);
            int len = top < 0x40 ? 2 : top < 0xc0 ? 4 : 6;
            for (int i = 0; i < len; i++) { if (!valid(a + i)) raise(X_ADDR); b[i] = ld1(a + i); }
            for (int i = len; i < 6; i++) b[i] = 0;
            if (r1) b[1] |= r[r1] & 0xff;
            if (b[0] == 0x44) { also(ea((b[2] << 8) | b[3], b[1] & 15), 2, true, 1); raise(X_EXEC); }
            exec(b, true);
            break;
        }
        case 0x45: r[r1] = link(); ic = a; break;
        case 0x46: r[r1]--; if (r[r1]) ic = a; break;
        case 0x47: if ((r1 << cc) & 8) ic = a; break;
        case 0x48: r[r1] = (int32_t)(int16_t)fetchop(a, 2, 2); break;
        case 0x49: cmp32((int32_t)r[r1], (int16_t)fetchop(a, 2, 2)); break;
        case 0x4a: { int32_t v = (int16_t)fetchop(a, 2, 2); r[r1] = add32(r[r1], v); break; }
        case 0x4b: { int32_t v = (int16_t)fetchop(a, 2, 2); r[r1] = sub32(r[r1], v); break; }
        case 0x4c: { int32_t v = (int16_t)fetchop(a, 2, 2); r[r1] = (uint32_t)((int64_t)(int32_t)r[r1] * v); break; }
        case 0x4e: {
            chk_align(a, 8); chk_store(a, 8); check_any();
            int64_t v = (int32_t)r[r1]; bool neg = v < 0; uint64_t u = neg ? (uint64_t)-v : (uint64_t)v;
            uint64_t p = ascii() ? (neg ? 0xb : 0xa) : (neg ? 0xd : 0xc);
            for (int sh = 4; u; sh += 4) { p |= (u % 10) << sh; u /= 10; }
            st8(a, p); break;
        }
        case 0x4f: {
            chk_align(a, 8); chk_fetch(a, 8); check_any();
            uint64_t p = ld8(a); int s = p & 15; bool bad = s < 10; uint64_t u = 0;
            for (int sh = 60; sh >= 4; sh -= 4) { int d = (p >> sh) & 15; if (d > 9) bad = true; u = u * 10 + d; }
            if (bad) raise(X_DATA);
            bool neg = s == 0xb || s == 0xd;
            r[r1] = neg ? 0u - (uint32_t)u : (uint32_t)u;
            if (neg ? u > 0x80000000ull : u > 0x7fffffffull) { codes.insert(X_FXDV); dcare_reg.insert(r1); }
            break;
        }
        case 0x50: storeop(a, r[r1], 4, 4); break;
        case 0x54: r[r1] &= fetchop(a, 4, 4); cc = r[r1] != 0; break;
        case 0x55: cmpu(r[r1], fetchop(a, 4, 4)); break;
        case 0x56: r[r1] |= fetchop(a, 4, 4); cc = r[r1] != 0; break;
        case 0x57: r[r1] ^= fetchop(a, 4, 4); cc = r[r1] != 0; break;
        case 0x58: r[r1] = fetchop(a, 4, 4); break;
        case 0x59: cmp32((int32_t)r[r1], (int32_t)fetchop(a, 4, 4)); break;
        case 0x5a: { uint32_t v = fetchop(a, 4, 4); r[r1] = add32(r[r1], v); break; }
        case 0x5b: { uint32_t v = fetchop(a, 4, 4); r[r1] = sub32(r[r1], v); break; }
        case 0x5c: if (r1 & 1) cond(X_SPEC); { uint32_t v = fetchop(a, 4, 4); mul(r1, v); } break;
        case 0x5d: if (r1 & 1) cond(X_SPEC); { uint32_t v = fetchop(a, 4, 4); div(r1, v); } break;
        case 0x5e: addl(r1, fetchop(a, 4, 4)); break;
        case 0x5f: subl(r1, fetchop(a, 4, 4)); break;
        }
    }

    void rs(uint8_t op, int r1, int r3, uint8_t i2, uint16_t bd) {
        uint32_t a = ea(bd, 0);
        switch (op) {
        case 0x80: { uint32_t v = fetchop(a, 1, 1); sysmask = v; break; }
        case 0x82: chk_align(a, 8); chk_fetch(a, 8); check_any(); load_psw(a); break;
        case 0x83: case 0x84: case 0x85: case 0x9c: case 0x9d: case 0x9e: case 0x9f: unpred = true; break;
        case 0x86: case 0x87: {
            uint32_t inc = r[r3], cmp = r[r3 | 1];
            uint32_t s = r[r1] + inc;
            bool hi = (int32_t)s > (int32_t)cmp;
            r[r1] = s;
            if ((op == 0x86) == hi) ic = a;
            break;
        }
        case 0x88: { int n = a & 63; r[r1] = n > 31 ? 0 : r[r1] >> n; break; }
        case 0x89: { int n = a & 63; r[r1] = n > 31 ? 0 : r[r1] << n; break; }
        case 0x8a: { int n = a & 63; if (n > 31) n = 31; r[r1] = (uint32_t)((int32_t)r[r1] >> n); set_cc_s((int32_t)r[r1]); break; }
        case 0x8b: {
            int n = a & 63; uint32_t s = r[r1] & 0x80000000u; uint64_t v = r[r1] & 0x7fffffff; bool ov = false;
            for (int i = 0; i < n; i++) { v <<= 1; if (((v >> 31) & 1) != (s >> 31)) ov = true; v &= 0x7fffffff; }
            r[r1] = (uint32_t)v | s; if (ov) { cc = 3; fxov(); } else set_cc_s((int32_t)r[r1]);
            break;
        }
        case 0x8c: case 0x8d: case 0x8e: case 0x8f: {
            if (r1 & 1) raise(X_SPEC);
            int n = a & 63; uint64_t v = ((uint64_t)r[r1] << 32) | r[r1 + 1]; bool ov = false;
            if (op == 0x8c) v >>= n;
            else if (op == 0x8d) v <<= n;
            else if (op == 0x8e) v = (uint64_t)((int64_t)v >> n);
            else {
                uint64_t s = v >> 63; uint64_t m = 0x7fffffffffffffffull; uint64_t w = v & m;
                for (int i = 0; i < n; i++) { if (((w >> 62) & 1) != s) ov = true; w = (w << 1) & m; }
                v = w | (s << 63);
            }
            r[r1] = (uint32_t)(v >> 32); r[r1 + 1] = (uint32_t)v;
            if (op >= 0x8e) { if (ov) { cc = 3; fxov(); } else cc = v == 0 ? 0 : (v >> 63) ? 1 : 2; }
            break;
        }
        case 0x90: {
            int n = ((r3 - r1) & 15) + 1;
            chk_align(a, 4); if (!codes.empty()) { chk_store(a, 4); throw Trap(); }
            chk_store(a, 4 * n);
            if (!codes.empty()) { for (int i = 0; i < 4 * n; i++) if (valid(a + i) && !prot(a + i)) dcare_mem.insert((a + i) & 0xffffff); throw Trap(); }
            for (int i = 0; i < n; i++) stn(a + 4 * i, r[(r1 + i) & 15], 4);
            break;
        }
        case 0x91: { uint8_t v = fetchop(a, 1, 1) & i2; cc = v == 0 ? 0 : v == i2 ? 3 : 1; break; }
        case 0x92: storeop(a, i2, 1, 1); break;
        case 0x93: { chk_store(a, 1); if (!codes.empty()) dcare_cc = true; check_any(); cc = ld1(a) >> 7; st1(a, 0xff); break; }
        case 0x94: { chk_store(a, 1); check_any(); uint8_t v = ld1(a) & i2; st1(a, v); cc = v != 0; break; }
        case 0x95: cmpu(fetchop(a, 1, 1), i2); break;
        case 0x96: { chk_store(a, 1); check_any(); uint8_t v = ld1(a) | i2; st1(a, v); cc = v != 0; break; }
        case 0x97: { chk_store(a, 1); check_any(); uint8_t v = ld1(a) ^ i2; st1(a, v); cc = v != 0; break; }
        case 0x98: {
            int n = ((r3 - r1) & 15) + 1;
            chk_align(a, 4); if (!codes.empty()) { chk_fetch(a, 4); throw Trap(); }
            chk_fetch(a, 4 * n);
            if (!codes.empty()) { for (int i = 0; i < n; i++) dcare_reg.insert((r1 + i) & 15); throw Trap(); }
            for (int i = 0; i < n; i++) r[(r1 + i) & 15] = ldn(a + 4 * i, 4);
            break;
        }
        }
    }

    // Terminating exceptions on storage-to-storage operations: everything already permitted in the
    // first operand may or may not have been changed; protected and unaddressed bytes may not.
    void ss_terminate(uint32_t a, int n) {
        for (int i = 0; i < n; i++) {
            uint32_t x = (a + i) & 0xffffff;
            if (valid(x) && !prot(x)) dcare_mem.insert(x);
        }
        dcare_cc = true;
        throw Trap();
    }
    static bool overlap(uint32_t a, int n, uint32_t b, int m) { return a < b + m && b < a + n; }

    void ss(uint8_t op, uint8_t l, uint32_t a1, uint32_t a2) {
        int n = l + 1, l1 = (l >> 4) + 1, l2 = (l & 15) + 1;
        switch (op) {
        case 0xd1: case 0xd2: case 0xd3: case 0xd4: case 0xd6: case 0xd7: {
            chk_store(a1, n); chk_fetch(a2, n);
            if (!codes.empty()) { ss_terminate(a1, n); }
            int acc = 0;
            for (int i = 0; i < n; i++) {
                uint8_t x = ld1(a1 + i), y = ld1(a2 + i), z = 0;
                switch (op) {
                case 0xd1: z = (x & 0xf0) | (y & 0x0f); break;
                case 0xd2: z = y; break;
                case 0xd3: z = (x & 0x0f) | (y & 0xf0); break;
                case 0xd4: z = x & y; break;
                case 0xd6: z = x | y; break;
                case 0xd7: z = x ^ y; break;
                }
                acc |= z; st1(a1 + i, z);
            }
            if (op == 0xd4 || op >= 0xd6) cc = acc != 0;
            break;
        }
        case 0xd5: {
            // only bytes up to the first inequality need be accessed
            for (int i = 0; i < n; i++) {
                if (!valid(a1 + i) || !valid(a2 + i)) { dcare_cc = true; raise(X_ADDR); }
                uint8_t x = ld1(a1 + i), y = ld1(a2 + i);
                if (x != y) { cc = x < y ? 1 : 2; for (int k = i; k < n; k++) if (!valid(a1 + k) || !valid(a2 + k)) unpred = true; return; }
            }
            cc = 0; break;
        }
        case 0xdc: {
            chk_store(a1, n);
            std::vector<uint8_t> out;
            for (int i = 0; i < n; i++) { if (!valid(a1 + i)) break; uint32_t t = (a2 + ld1(a1 + i)) & 0xffffff; if (!valid(t)) cond(X_ADDR); else if (t >= a1 && t < a1 + n) unpred = true; }
            if (!valid(a2)) cond(X_ADDR);
            if (!codes.empty()) { ss_terminate(a1, n); }
            for (int i = 0; i < n; i++) st1(a1 + i, ld1(a2 + ld1(a1 + i)));
            break;
        }
        case 0xdd: {
            for (int i = 0; i < n; i++) {
                if (!valid(a1 + i)) { dcare_cc = true; raise(X_ADDR); }
                uint32_t t = (a2 + ld1(a1 + i)) & 0xffffff;
                if (!valid(t)) { dcare_cc = true; raise(X_ADDR); }
                uint8_t v = ld1(t);
                if (v) {
                    r[1] = (r[1] & 0xff000000) | ((a1 + i) & 0xffffff);
                    r[2] = (r[2] & 0xffffff00) | v;
                    cc = i == n - 1 ? 2 : 1;
                    if (!valid(a1 + n - 1)) unpred = true;
                    return;
                }
            }
            cc = 0; break;
        }
        case 0xde: case 0xdf: edit(op == 0xdf, a1, n, a2); break;
        case 0xf1: case 0xf2: case 0xf3: {
            chk_store(a1, l1); chk_fetch(a2, l2);
            if (overlap(a1, l1, a2, l2)) {
                if (!(op == 0xf2 && 0)) unpred = true;
            }
            if (!codes.empty()) { ss_terminate(a1, l1); }
            if (op == 0xf1) {
                // move with offset
                std::vector<uint8_t> nib;                 // low order first
                nib.push_back(ld1(a1 + l1 - 1) & 15);
                for (int i = l2 - 1; i >= 0; i--) { uint8_t v = ld1(a2 + i); nib.push_back(v & 15); nib.push_back(v >> 4); }
                while ((int)nib.size() < 2 * l1) nib.push_back(0);
                for (int i = 0; i < l1; i++) st1(a1 + l1 - 1 - i, nib[2 * i] | (nib[2 * i + 1] << 4));
            } else if (op == 0xf2) {
                std::vector<uint8_t> nib;
                uint8_t v = ld1(a2 + l2 - 1); nib.push_back(v >> 4); nib.push_back(v & 15);
                for (int i = l2 - 2; i >= 0; i--) nib.push_back(ld1(a2 + i) & 15);
                while ((int)nib.size() < 2 * l1) nib.push_back(0);
                for (int i = 0; i < l1; i++) st1(a1 + l1 - 1 - i, nib[2 * i] | (nib[2 * i + 1] << 4));
            } else {
                std::vector<uint8_t> nib;
                uint8_t z = ascii() ? 0x50 : 0xf0;
                if (ascii()) known(2050, "ascii-decimal-result");
                uint8_t v = ld1(a2 + l2 - 1);
                uint8_t first = (v << 4) | (v >> 4);
                nib.push_back(v >> 4);
                for (int i = l2 - 2; i >= 0; i--) { uint8_t w = ld1(a2 + i); nib.push_back(w & 15); nib.push_back(w >> 4); }
                while ((int)nib.size() < l1) nib.push_back(0);
                st1(a1 + l1 - 1, first);
                for (int i = 1; i < l1; i++) st1(a1 + l1 - 1 - i, z | nib[i]);
            }
            break;
        }
        case 0xf8: case 0xf9: case 0xfa: case 0xfb: case 0xfc: case 0xfd: decimal(op, a1, l1, a2, l2); break;
        }
    }

    // ---- decimal ---------------------------------------------------------
    typedef std::vector<int> Dig;     // least significant first
    bool getdec(uint32_t a, int l, Dig &d, bool &neg) {
        bool ok = true; d.clear();
        for (int i = l - 1; i >= 0; i--) {
            uint8_t v = ld1(a + i);
            if (i == l - 1) { int s = v & 15; if (s < 10) ok = false; neg = s == 0xb || s == 0xd; d.push_back(v >> 4); }
            else { d.push_back(v & 15); d.push_back(v >> 4); }
        }
        for (int x : d) if (x > 9) ok = false;
        return ok;
    }
    void putdec(uint32_t a, int l, const Dig &d, bool neg) {
        auto at = [&](int i) { return i < (int)d.size() ? d[i] : 0; };
        int s = ascii() ? (neg ? 0xb : 0xa) : (neg ? 0xd : 0xc);
        st1(a + l - 1, (at(0) << 4) | s);
        for (int i = 1; i < l; i++) st1(a + l - 1 - i, at(2 * i - 1) | (at(2 * i) << 4));
    }
    static bool iszero(const Dig &d) { for (int x : d) if (x) return false; return true; }
    static int dcmp(Dig a, Dig b) {
        size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n);
        for (int i = n - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        return 0;
    }
    static Dig dadd(Dig a, Dig b) {
        size_t n = std::max(a.size(), b.size()) + 1; a.resize(n); b.resize(n); int c = 0;
        for (size_t i = 0; i < n; i++) { int s = a[i] + b[i] + c; a[i] = s % 10; c = s / 10; }
        return a;
    }
    static Dig dsub(Dig a, Dig b) {
        size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n); int c = 0;
        for (size_t i = 0; i < n; i++) { int s = a[i] - b[i] - c; c = s < 0; a[i] = s < 0 ? s + 10 : s; }
        return a;
    }
    void known_decimal(uint8_t op, int l1, int l2, const Dig &d1, const Dig &d2, bool ok1, bool ok2, uint32_t a1) {
        if ((op == 0xfa || op == 0xfb) && ascii()) known(2050, "ascii-decimal-result");
        if (op == 0xfc && !ok1 && ok2 && iszero(d2)) { known(2030, "multiply-by-zero-invalid-multiplicand"); known(2050, "multiply-by-zero-invalid-multiplicand"); }
        if (op == 0xfc && !ok1 && ok2 && (ld1(a1 + l1 - 1) & 15) > 9) {
            bool hi = false; for (size_t i = 0; i < d1.size(); i += 2) if (d1[i] > 9) hi = true;
            if (!hi) known(2050, "multiply-invalid-low-digit");
        }
        if (op == 0xf9 && ok1 && !ok2) {
            if ((ld1_last2 & 15) > 9) known(2050, "compare-invalid-digit-of-second-operand");
        }
        if ((op == 0xfa || op == 0xfb) && ok1 && ok2 && l2 > l1) {
            bool hi = false;
            for (int i = 2 * l1 - 1; i < 2 * l2 - 1; i++) if (d2[i]) hi = true;
            Dig a(d1), b(d2.begin(), d2.begin() + 2 * l1 - 1), sum = dadd(a, b); sum.resize(2 * l1 - 1);
            if ((iszero(sum) || a == b) && hi) known(2050, "add-decimal-zero-with-overflow");
        }
    }
    uint8_t ld1_last2 = 0;
    void decimal(uint8_t op, uint32_t a1, int l1, uint32_t a2, int l2) {
        if (op >= 0xfc && (l2 > 8 || l2 >= l1)) {
            // specification; other conditions may be recognised instead
            cond(X_SPEC); cond(X_DATA);
            chk_store(a1, l1); chk_fetch(a2, l2);
            throw Trap();
        }
        if (op == 0xf9) { chk_fetch(a1, l1); chk_fetch(a2, l2); }
        else { chk_store(a1, l1); chk_fetch(a2, l2); }
        bool ov = overlap(a1, l1, a2, l2);
        if (ov) {
            bool same_end = a1 + l1 == a2 + l2;
            if (op == 0xf8) { if (!(a1 + l1 >= a2 + l2)) unpred = true; }
            else if (op >= 0xfc) unpred = true;
            else if (!same_end) unpred = true;
        }
        Dig d1, d2; bool n1 = false, n2 = false;
        bool addr_ok = true;
        for (int i = 0; i < l1; i++) if (!valid(a1 + i)) addr_ok = false;
        for (int i = 0; i < l2; i++) if (!valid(a2 + i)) addr_ok = false;
        if (addr_ok) {
            bool ok2 = getdec(a2, l2, d2, n2);
            bool ok1 = op == 0xf8 ? true : getdec(a1, l1, d1, n1);
            ld1_last2 = ld1(a2 + l2 - 1); known_decimal(op, l1, l2, d1, d2, ok1, ok2, a1);
            if (!ok1 || !ok2) { cond(X_DATA); if (op == 0xfd) cond(X_DCDV); }
            if (op == 0xfc && ok1) {
                // the multiplicand must have l2 bytes of high order zeros
                for (int i = 0; i < 2 * l2; i++) if (d1[2 * l1 - 2 - i]) { cond(X_DATA); break; }
            }
            if (op == 0xfd && ok1 && ok2) {
                int q = 2 * (l1 - l2) - 1;
                Dig s(q, 0); s.insert(s.end(), d2.begin(), d2.end());
                if (dcmp(s, d1) <= 0) {
                    if (codes.empty()) raise(X_DCDV);     // suppressed
                    cond(X_DCDV);
                }
            }
        } else { cond(X_ADDR); cond(X_DATA); if (op == 0xfd) cond(X_DCDV); }     // the digits that can be fetched may be invalid
        if (!codes.empty()) {
            if (op == 0xf9) { dcare_cc = true; throw Trap(); }
            ss_terminate(a1, l1);
        }
        int nd = 2 * l1 - 1;
        switch (op) {
        case 0xf9: case 0xfa: case 0xfb: {
            bool m2 = op == 0xfa ? n2 : !n2;
            Dig s; bool neg;
            if (n1 == m2) { s = dadd(d1, d2); neg = n1; }
            else { int c = dcmp(d1, d2); if (c >= 0) { s = dsub(d1, d2); neg = n1; } else { s = dsub(d2, d1); neg = m2; } }
            if (op == 0xf9) { cc = iszero(s) ? 0 : neg ? 1 : 2; break; }
            bool over = false;
            for (int i = nd; i < (int)s.size(); i++) if (s[i]) over = true;
            s.resize(nd);
            if (iszero(s) && !over) neg = false;
            putdec(a1, l1, s, neg);
            if (over) { cc = 3; dcov(); } else cc = iszero(s) ? 0 : neg ? 1 : 2;
            break;
        }
        case 0xf8: {
            Dig s = d2; bool neg = n2, over = false;
            for (int i = nd; i < (int)s.size(); i++) if (s[i]) over = true;
            s.resize(nd);
            if (iszero(s) && !over) neg = false;
            putdec(a1, l1, s, neg);
            if (over) { cc = 3; dcov(); } else cc = iszero(s) ? 0 : neg ? 1 : 2;
            break;
        }
        case 0xfc: {
            Dig p(64, 0);
            for (size_t i = 0; i < d1.size(); i++) for (size_t j = 0; j < d2.size(); j++) if (i + j < 64) p[i + j] += d1[i] * d2[j];
            int c = 0; for (auto &x : p) { x += c; c = x / 10; x %= 10; }
            p.resize(nd);
            putdec(a1, l1, p, n1 != n2);
            break;
        }
        case 0xfd: {
            int ql = l1 - l2;
            Dig q, rem;
            for (int i = d1.size() - 1; i >= 0; i--) {
                rem.insert(rem.begin(), d1[i]);
                int k = 0;
                while (dcmp(rem, d2) >= 0) { rem = dsub(rem, d2); k++; }
                q.insert(q.begin(), k);
            }
            Dig qq = q; qq.resize(2 * ql - 1); rem.resize(2 * l2 - 1);
            putdec(a1, ql, qq, n1 != n2);
            putdec(a1 + ql, l2, rem, n1);
            break;
        }
        }
    }

    void edit(bool mk, uint32_t a1, int n, uint32_t a2) {
        // A byte that is left as it is need not be stored, and the source is fetched only for digits, so
        // whether an access exception is due depends on the pattern.
        { bool anyprot = false, digits = false;
          for (int i = 0; i < n; i++) if (valid(a1 + i)) { if (prot(a1 + i)) anyprot = true; if (ld1(a1 + i) == 0x20 || ld1(a1 + i) == 0x21) digits = true; }
          if ((anyprot && !(prot(a1) && prot(a1 + n - 1) && digits && n > 1)) || (!digits && !valid(a2))) unpred = true;
          if (overlap(a1, n, a2, n)) unpred = true; }
        chk_store(a1, n);
        if (!valid(a2)) cond(X_ADDR);
        if (!codes.empty()) { cond(X_DATA); if (mk) dcare_reg.insert(1); ss_terminate(a1, n); }
        uint8_t zone = ascii() ? 0x50 : 0xf0;
        bool sig = false, zero = true; uint8_t fill = 0; uint32_t s = a2; bool half = false; uint8_t cur = 0;
        int neg = 0; bool last_was_sep = false; (void)last_was_sep;
        std::vector<uint8_t> out(n);
        bool reg1set = false; uint32_t r1v = r[1];
        std::set<uint32_t> src;
        auto fail = [&](int c) { cond(c); if (mk) dcare_reg.insert(1); ss_terminate(a1, n); };
        for (int i = 0; i < n; i++) {
            uint8_t p = ld1(a1 + i);
            if (i == 0) fill = p;
            uint8_t res;
            if (p == 0x20 || p == 0x21) {
                int d; bool plus = false, minus = false;
                if (!half) {
                    if (!valid(s)) fail(X_ADDR);
                    src.insert(s & 0xffffff);
                    cur = ld1(s++); d = cur >> 4; 
                    if (d > 9) fail(X_DATA);
                    int lo = cur & 15;
                    if (lo >= 10) { if (lo == 0xb || lo == 0xd) minus = true; else plus = true; half = false; }
                    else half = true;
                } else { d = cur & 15; half = false; }
                bool was = sig;
                if (was || d) {
                    res = zone | d;
                    if (!was && mk) { r1v = (r1v & 0xff000000) | ((a1 + i) & 0xffffff); reg1set = true; }
                } else res = fill;
                if (d) zero = false;
                if (d || p == 0x21) sig = true;
                if (plus) sig = false;
                (void)minus;
                neg = 1;
            } else if (p == 0x22) {
                res = fill; sig = false; zero = true;
            } else {
                res = (i == 0) ? fill : (sig ? p : fill);
            }
            out[i] = res;
        }
        for (auto x : src) if (x >= a1 && x < a1 + n) unpred = true;
        (void)neg;
        for (int i = 0; i < n; i++) st1(a1 + i, out[i]);
        if (reg1set) r[1] = r1v;
        cc = zero ? 0 : sig ? 1 : 2;
    }

    // ---- floating point --------------------------------------------------
    static bool fpbad(int x) { return x & 9; }
    static const uint64_t FR = 0x00ffffffffffffffull;
    struct FP { int sgn; int exp; uint64_t frac; };     // frac: 56 bits
    static FP unpack(uint64_t v) { FP x; x.sgn = v >> 63; x.exp = (v >> 56) & 0x7f; x.frac = v & FR; return x; }
    static uint64_t pack(int s, int e, uint64_t fr) { return ((uint64_t)s << 63) | ((uint64_t)(e & 0x7f) << 56) | (fr & FR); }
    void setshort(int i, uint64_t v) { f[i >> 1] = (f[i >> 1] & 0xffffffffull) | (v & 0xffffffff00000000ull); }
    void setlong(int i, uint64_t v) { f[i >> 1] = v; }
    void setfp(int i, uint64_t v, bool lng) { if (lng) setlong(i, v); else setshort(i, v); }
    uint64_t getfp(int i, bool lng) const { return lng ? f[i >> 1] : f[i >> 1] & 0xffffffff00000000ull; }

    bool halve_norm = true;      // HALVE normalises its result (the later definition of the instruction)
    bool long_guard = true;     // long operations keep a guard digit
    // add/subtract/compare; returns via state
    void fadd(int r1, uint64_t v2, bool lng, bool sub, bool norm, bool cmp) {
        FP a = unpack(getfp(r1, lng)), b = unpack(v2);
        if (sub) b.sgn ^= 1;
        // fractions with one guard digit below: short keeps 6 digits + guard, long 14 + guard
        int lowbits = lng ? 0 : 32;
        u128 fa = (u128)a.frac << 4, fb = (u128)b.frac << 4;      // bit 0..3: guard digit for long
        u128 gmask = lng ? (long_guard ? ~(u128)0 : ~(u128)15) : ~(((u128)1 << lowbits) - 1);   // keep 6 digits + 1 guard
        int e = a.exp > b.exp ? a.exp : b.exp;
        int da = e - a.exp, db = e - b.exp;
        fa = da > 16 ? 0 : fa >> (4 * da); fb = db > 16 ? 0 : fb >> (4 * db);
        fa &= gmask; fb &= gmask;
        i128 s = (a.sgn ? -(i128)fa : (i128)fa) + (b.sgn ? -(i128)fb : (i128)fb);
        int sgn = s < 0; u128 m = s < 0 ? (u128)-s : (u128)s;
        if (s == 0) sgn = 0;
        if (cmp) { cc = s == 0 ? 0 : s < 0 ? 1 : 2; return; }
        bool ovf = false;
        if (m >> 60) { m >>= 4; e++; if (e > 127) ovf = true; 
            if (!lng) m &= ~(((u128)1 << (lowbits)) - 1); }
        if (m == 0) {
            cc = 0;
            if (pm & 1) { codes.insert(X_SIGN); setfp(r1, pack(0, e, 0), lng); dcare_sig(r1); }
            else setfp(r1, 0, lng);
            return;
        }
        bool unf = false;
        if (norm && !ovf && lng && da + db == 1 && (m & 15) && !(m >> 52)) known(2050, "long-add-guard-digit-shift");
        if (norm && !ovf) { while (!(m >> 56)) { m <<= 4; e--; } if (e < 0) unf = true; }
        // drop guard
        uint64_t fr = (uint64_t)(m >> 4) & FR;
        if (!lng) fr &= ~0xffffffffull;
        if (!norm && fr == 0) { /* only the guard digit was non-zero */ }
        cc = sgn ? 1 : 2;
        if (!norm && fr == 0 && !ovf) { note_guard_only = true; }
        if (ovf) { codes.insert(X_EXOV); setfp(r1, pack(sgn, e, fr), lng); return; }
        if (unf) {
            if (!lng) known(2050, "short-add-underflow");
            if (pm & 2) { codes.insert(X_EXUN); setfp(r1, pack(sgn, e, fr), lng); }
            else { setfp(r1, 0, lng); cc = 0; }
            return;
        }
        setfp(r1, pack(sgn, e, fr), lng);
    }
    bool note_guard_only = false;
    // The conditions under which a model is known to deviate from the architecture (listed findings).
    int model = REF_MODEL; std::set<std::string> kf;
    void known(int m, const char *n) { if (model == m) kf.insert(n); }
    void dcare_sig(int) {}

    static void normalize(FP &x) { if (!x.frac) return; while (!(x.frac >> 52)) { x.frac <<= 4; x.exp--; } }

    void fmul(int r1, uint64_t v2, bool lng) {
        FP a = unpack(getfp(r1, lng)), b = unpack(v2);
        if (a.frac == 0 || b.frac == 0) { setlong(r1, 0); return; }
        normalize(a); normalize(b);
        u128 p = (u128)a.frac * b.frac;      // 112 bits
        int e = a.exp + b.exp - 64;
        if (!(p >> 108)) { p <<= 4; e--; }
        uint64_t fr = (uint64_t)(p >> 56) & FR;
        int s = a.sgn ^ b.sgn;
        if (e > 127) { codes.insert(X_EXOV); setlong(r1, pack(s, e, fr)); return; }
        if (e < 0) { if (pm & 2) { codes.insert(X_EXUN); setlong(r1, pack(s, e, fr)); } else setlong(r1, 0); return; }
        setlong(r1, pack(s, e, fr));
    }
    void fdiv(int r1, uint64_t v2, bool lng) {
        FP a = unpack(getfp(r1, lng)), b = unpack(v2);
        if (b.frac == 0) raise(X_FPDV);
        if (a.frac == 0) { setfp(r1, 0, lng); return; }
        bool unn = !(b.frac >> 52); normalize(a); normalize(b);
        int nd = lng ? 56 : 24; int sh = 56 - nd;
        u128 x = a.frac >> sh, y = b.frac >> sh;
        int e = a.exp - b.exp + 64;
        if (x >= y) { e++; x <<= (nd - 4); } else x <<= nd;
        u128 q = x / y;
        uint64_t fr = (uint64_t)q << sh;
        int s = a.sgn ^ b.sgn;
        if (e > 127) { if (unn) known(2050, "divide-overflow-unnormalized-divisor"); codes.insert(X_EXOV); setfp(r1, pack(s, e, fr), lng); return; }
        if (e < 0) { if (pm & 2) { codes.insert(X_EXUN); setfp(r1, pack(s, e, fr), lng); } else setfp(r1, 0, lng); return; }
        setfp(r1, pack(s, e, fr), lng);
    }
    void fp_op(uint8_t fn, bool lng, int r1, uint64_t v2) {
        switch (fn) {
        case 0x8: setfp(r1, v2, lng); break;
        case 0x9: fadd(r1, v2, lng, true, false, true); break;
        case 0xa: fadd(r1, v2, lng, false, true, false); break;
        case 0xb: fadd(r1, v2, lng, true, true, false); break;
        case 0xc: fmul(r1, v2, lng); break;
        case 0xd: fdiv(r1, v2, lng); break;
        case 0xe: fadd(r1, v2, lng, false, false, false); break;
        case 0xf: fadd(r1, v2, lng, true, false, false); break;
        }
    }
    void fp_rr(uint8_t op, int r1, int r2) {
        bool lng = op < 0x30;
        if (fpbad(r1) || fpbad(r2)) raise(X_SPEC);
        note_guard_only = false;
        uint64_t v = getfp(r2, lng);
        uint64_t fm = lng ? FR : 0x00ffffff00000000ull;
        switch (op & 15) {
        case 0: case 1: case 2: case 3: {
            uint64_t sb = 1ull << 63;
            if ((op & 15) == 0) v &= ~sb; else if ((op & 15) == 1) v |= sb; else if ((op & 15) == 3) v ^= sb;
            setfp(r1, v, lng);
            cc = (v & fm) == 0 ? 0 : (v >> 63) ? 1 : 2; break;
        }
        case 4: {
            if (!halve_norm) {
                uint64_t fr = (v & fm) >> 1;
                setfp(r1, (v & 0xff00000000000000ull) | (fr & fm), lng);
                break;
            }
            u128 fr = (u128)(v & fm) << 3;          // halved, with a guard digit
            int e = (v >> 56) & 0x7f; int sg = v >> 63;
            if (!fr) { setfp(r1, 0, lng); break; }
            while (!(fr >> 56)) { fr <<= 4; e--; }
            uint64_t w = (uint64_t)(fr >> 4) & fm;
            if (e < 0 && (pm & 2)) known(2050, "halve-underflow-sign");
            if (e < 0) { if (pm & 2) { codes.insert(X_EXUN); setfp(r1, pack(sg, e, w), lng); } else setfp(r1, 0, lng); break; }
            setfp(r1, pack(sg, e, w), lng);
            break;
        }
        default: fp_op(op & 15, lng, r1, v); break;
        }
    }
    void fp_rx(uint8_t op, int r1, uint32_t a) {
        bool lng = op < 0x70;
        note_guard_only = false;
        if (fpbad(r1)) cond(X_SPEC);
        int n = lng ? 8 : 4;
        chk_align(a, n);
        if ((op & 15) == 0) {
            chk_store(a, n); check_any();
            if (lng) st8(a, f[r1 >> 1]); else stn(a, (uint32_t)(f[r1 >> 1] >> 32), 4);
            return;
        }
        chk_fetch(a, n); check_any();
        uint64_t v = lng ? ld8(a) : (uint64_t)ldn(a, 4) << 32;
        fp_op(op & 15, lng, r1, v);
    }
};
