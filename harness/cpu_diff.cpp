// Differential monitor: random System/360 programs run on the simulated machine (unmodified microcode
// and data flow) and on the independent reference interpreter; the final architectural state (every
// byte of storage, registers and PSW as stored by the guest's own interruption handler, storage keys)
// must agree.
#include "machine.hpp"
#include "ref360.hpp"
#include "vh.hpp"
#include "stubs.hpp"
using namespace vh;

static const char *mnem(uint8_t op) {
    static const char *t[256]; static bool init = false;
    if (!init) {
        init = true; for (auto &x : t) x = nullptr;
        struct { int o; const char *n; } L[] = {
            {0x04,"SPM"},{0x05,"BALR"},{0x06,"BCTR"},{0x07,"BCR"},{0x08,"SSK"},{0x09,"ISK"},{0x0a,"SVC"},
            {0x10,"LPR"},{0x11,"LNR"},{0x12,"LTR"},{0x13,"LCR"},{0x14,"NR"},{0x15,"CLR"},{0x16,"OR"},{0x17,"XR"},{0x18,"LR"},{0x19,"CR"},{0x1a,"AR"},{0x1b,"SR"},{0x1c,"MR"},{0x1d,"DR"},{0x1e,"ALR"},{0x1f,"SLR"},
            {0x20,"LPDR"},{0x21,"LNDR"},{0x22,"LTDR"},{0x23,"LCDR"},{0x24,"HDR"},{0x28,"LDR"},{0x29,"CDR"},{0x2a,"ADR"},{0x2b,"SDR"},{0x2c,"MDR"},{0x2d,"DDR"},{0x2e,"AWR"},{0x2f,"SWR"},
            {0x30,"LPER"},{0x31,"LNER"},{0x32,"LTER"},{0x33,"LCER"},{0x34,"HER"},{0x38,"LER"},{0x39,"CER"},{0x3a,"AER"},{0x3b,"SER"},{0x3c,"MER"},{0x3d,"DER"},{0x3e,"AUR"},{0x3f,"SUR"},
            {0x40,"STH"},{0x41,"LA"},{0x42,"STC"},{0x43,"IC"},{0x44,"EX"},{0x45,"BAL"},{0x46,"BCT"},{0x47,"BC"},{0x48,"LH"},{0x49,"CH"},{0x4a,"AH"},{0x4b,"SH"},{0x4c,"MH"},{0x4e,"CVD"},{0x4f,"CVB"},
            {0x50,"ST"},{0x54,"N"},{0x55,"CL"},{0x56,"O"},{0x57,"X"},{0x58,"L"},{0x59,"C"},{0x5a,"A"},{0x5b,"S"},{0x5c,"M"},{0x5d,"D"},{0x5e,"AL"},{0x5f,"SL"},
            {0x60,"STD"},{0x68,"LD"},{0x69,"CD"},{0x6a,"AD"},{0x6b,"SD"},{0x6c,"MD"},{0x6d,"DD"},{0x6e,"AW"},{0x6f,"SW"},
            {0x70,"STE"},{0x78,"LE"},{0x79,"CE"},{0x7a,"AE"},{0x7b,"SE"},{0x7c,"ME"},{0x7d,"DE"},{0x7e,"AU"},{0x7f,"SU"},
            {0x80,"SSM"},{0x82,"LPSW"},{0x83,"DIAG"},{0x84,"WRD"},{0x85,"RDD"},{0x86,"BXH"},{0x87,"BXLE"},{0x88,"SRL"},{0x89,"SLL"},{0x8a,"SRA"},{0x8b,"SLA"},{0x8c,"SRDL"},{0x8d,"SLDL"},{0x8e,"SRDA"},{0x8f,"SLDA"},
            {0x90,"STM"},{0x91,"TM"},{0x92,"MVI"},{0x93,"TS"},{0x94,"NI"},{0x95,"CLI"},{0x96,"OI"},{0x97,"XI"},{0x98,"LM"},{0x9c,"SIO"},{0x9d,"TIO"},{0x9e,"HIO"},{0x9f,"TCH"},
            {0xd1,"MVN"},{0xd2,"MVC"},{0xd3,"MVZ"},{0xd4,"NC"},{0xd5,"CLC"},{0xd6,"OC"},{0xd7,"XC"},{0xdc,"TR"},{0xdd,"TRT"},{0xde,"ED"},{0xdf,"EDMK"},
            {0xf1,"MVO"},{0xf2,"PACK"},{0xf3,"UNPK"},{0xf8,"ZAP"},{0xf9,"CP"},{0xfa,"AP"},{0xfb,"SP"},{0xfc,"MP"},{0xfd,"DP"} };
        for (auto &e : L) t[e.o] = e.n;
    }
    if (t[op]) return t[op];
    static char b[8][8]; static int k; k = (k + 1) & 7; snprintf(b[k], 8, "op%02X", op); return b[k];
}

// ---- layout -------------------------------------------------------------
enum { H_SVC = 0x400, H_PGM = 0x440, H_EXT = 0x480, H_MCK = 0x4c0, H_IO = 0x500, PROLOG = 0x540,
       SAVE_R = 0x580, SAVE_F = 0x5c0, MARK = 0x5e0, INIT_R = 0x5f0 /*..0x62f*/, INIT_F = 0x630 /*..0x64f*/, INIT_PSW = 0x650,
       POOL = 0x660, POOL_END = 0x800, CODE = 0x800, CODE_END = 0x2000, DATA = 0x2000 };

static bool g_fp =
#ifdef M2050
    true;
#else
    false;      // the Model 30 microcode carries no floating-point feature: those codes are operation exceptions
#endif
static uint32_t g_mem = 65536;

struct Prog {
    std::vector<uint8_t> img; uint8_t keys[256]; 
    std::vector<uint32_t> path;      // address of each instruction executed by the reference (test part)
};

static void put(std::vector<uint8_t> &m, uint32_t a, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) { m[a + i] = v & 0xff; v >>= 8; } }

static void base_image(std::vector<uint8_t> &m) {
    struct { int newp, h, mark; } T[] = { {0x60, H_SVC, 1}, {0x68, H_PGM, 2}, {0x58, H_EXT, 3}, {0x70, H_MCK, 4}, {0x78, H_IO, 5} };
    for (auto &t : T) {
        put(m, t.newp, 0, 4); put(m, t.newp + 4, t.h, 4);
        uint32_t a = t.h;
        put(m, a, 0x90000000u | (0x0f << 16) | SAVE_R, 4); a += 4;
        if (g_fp) for (int i = 0; i < 4; i++) { put(m, a, 0x60000000u | (uint32_t)(2 * i) << 20 | (SAVE_F + 8 * i), 4); a += 4; }
        put(m, a, 0x92000000u | (uint32_t)t.mark << 16 | MARK, 4); a += 4;
        put(m, a, 0x47f00000u | a, 4);
    }
    uint32_t a = PROLOG;
    if (g_fp) for (int i = 0; i < 4; i++) { put(m, a, 0x68000000u | (uint32_t)(2 * i) << 20 | (INIT_F + 8 * i), 4); a += 4; }
    put(m, a, 0x98000000u | (0x0f << 16) | INIT_R, 4); a += 4;
    put(m, a, 0x82000000u | INIT_PSW, 4);
    put(m, 0, 0x8200000800000000ull, 8);
    put(m, 8, PROLOG, 8);
}

// ---- running the machine -------------------------------------------------
static Machine mach;
struct Result { bool done = false; int mark = 0; uint64_t cycles = 0; std::string trouble; };
static Result run_machine(const Prog &p, uint64_t limit) {
    Result R;
    for (uint32_t i = 0; i < g_mem; i++) Machine::setb(i, p.img[i]);
    for (uint32_t b = 0; b < g_mem >> 11; b++) Machine::setkey(b, p.keys[b]);
    mach.reset();
    for (uint32_t i = 0; i < 16; i++) if (Machine::getb(i) != p.img[i]) { R.trouble = "reset changed storage"; return R; }
    START = 1; mach.cycle(); mach.cycle(); START = 0;
    uint64_t n = 0;
    while (n < limit) { mach.run(16); n += 16; if (Machine::getb(MARK)) break; }
    R.cycles = n; R.mark = Machine::getb(MARK); R.done = R.mark != 0;
    mach.run(64);
    return R;
}

// ---- generator -------------------------------------------------------------
struct Gen {
    Rng &r; Ref360 ref; Prog p; std::vector<uint8_t> started; // 1 = instruction starts here, 2 = continuation
    uint32_t pool = POOL; int profile; bool want_trap = false; int steps = 0;
    Gen(Rng &rr, int prof) : r(rr), profile(prof) {}

    uint32_t corner32() {
        static const uint32_t c[] = { 0, 1, 2, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x7ffffffe, 0x0000ffff, 0x00010000, 0xffff0000, 0x00ff00ff, 0x00008000, 0x00007fff, 0xffff8000, 0x01000000, 0x00ffffff, 10, 100, 999999999, 0x40000000, 0xc0000000, 0x3fffffff };
        switch (r.below(5)) { case 0: return r.pick(c); case 1: return r.u32() & ((1u << r.below(31)) | ((1u << r.below(32)) - 1)); case 2: return 1u << r.below(32); case 3: return 0u - (r.u32() >> r.below(32)); default: return r.u32(); }
    }
    uint64_t fpval() {
        static const int ex[] = { 0, 1, 2, 6, 13, 14, 63, 64, 65, 70, 78, 120, 126, 127 };
        int e = r.chance(60) ? 64 + r.range(-8, 8) : r.chance(50) ? r.pick(ex) : (int)r.below(128);
        uint64_t fr;
        switch (r.below(8)) {
        case 0: fr = 0; break;
        case 1: fr = 0x00100000000000ull << r.below(4); break;
        case 2: fr = (r.next() & 0xffffffffffffffull) >> (4 * r.below(14)); break;
        case 3: fr = (r.next() & 0xffffffull) << 32; break;
        case 4: fr = ((r.next() & 0xffffffull) >> (4 * r.below(6))) << 32; break;
        case 5: fr = 0xffffffffffffffull; break;
        case 6: fr = 0xffffffffffffffull << (4 * r.below(14)); break;
        default: fr = r.next() | 0x80000000000000ull; break;
        }
        fr &= 0xffffffffffffffull;
        return ((uint64_t)r.below(2) << 63) | ((uint64_t)e << 56) | fr;
    }
    void packed(uint8_t *o, int n) {
        int nd = 2 * n - 1, sig = r.chance(30) ? r.below(nd + 1) : r.chance(20) ? nd : (int)r.below(nd / 2 + 2);
        int d[64] = { 0 }; for (int i = 0; i < sig && i < nd; i++) d[i] = r.chance(25) ? 9 : r.chance(20) ? 0 : r.below(10);
        static const int sg[] = { 0xc, 0xc, 0xd, 0xd, 0xf, 0xa, 0xb, 0xe, 0xc, 0xd };
        o[n - 1] = (d[0] << 4) | r.pick(sg);
        for (int i = 1; i < n; i++) o[n - 1 - i] = d[2 * i - 1] | (d[2 * i] << 4);
        if (r.one_in(50)) { int i = r.below(n); if (r.chance(50)) o[i] = r.u32(); else if (i == n - 1 && r.chance(50)) o[i] = (o[i] & 0xf0) | r.below(10); else if (r.chance(50) || i == n - 1) o[i] = (o[i] & 15) | (10 + r.below(6)) << 4; else o[i] = (o[i] & 0xf0) | (10 + r.below(6)); }       // invalid digits and signs
    }
    void fill() {
        auto &m = p.img; m.assign(g_mem, 0);
        for (uint32_t a = DATA; a < g_mem; a += 4) put(m, a, 0, 4);
        uint32_t top = std::min<uint32_t>(g_mem, 0x10000);
        for (uint32_t a = DATA; a < top; a += 4) put(m, a, corner32(), 4);
        for (uint32_t a = 0x4000; a < 0x6000; a += 16) packed(&m[a], 16);                       // long packed
        for (uint32_t a = 0x6000; a < 0x7000; ) { int n = r.range(1, 8); packed(&m[a], n); a += n; }  // short packed
        for (uint32_t a = 0x7000; a < 0x7800; a++) m[a] = (r.chance(80) ? 0xf0 : r.u32() & 0xf0) | r.below(10); // zoned
        for (uint32_t a = 0x7800; a < 0x8000; a++) { static const uint8_t e[] = { 0x20, 0x20, 0x20, 0x20, 0x21, 0x22, 0x40, 0x5c, 0x6b, 0x4b, 0xf0 }; m[a] = r.pick(e); }   // edit patterns
        for (uint32_t a = 0x8000; a < 0x9000; a += 8) put(m, a, fpval(), 8);
        for (uint32_t a = 0x9000; a < 0x9800; a += 8) { uint8_t b[8]; packed(b, 8); if (r.chance(60)) b[0] = b[1] = b[2] = 0; memcpy(&m[a], b, 8); }  // CVB sources
        for (uint32_t a = 0x9800; a < 0xa000; a++) m[a] = r.chance(90) ? 0 : r.u32();           // TRT tables
        base_image(m);
        for (auto &k : p.keys) k = 0;
    }
    uint32_t pool_word(uint64_t v, int n) {     // constant of n bytes, aligned
        uint32_t a = (pool + 7) & ~7u; if (n <= 4) a = (pool + 3) & ~3u;
        if (a + n > POOL_END) return 0;
        put(p.img, a, v, n); put(ref.mem, a, v, n); pool = a + n; return a;
    }
    uint32_t target(int align, int len, int cls) {
        uint32_t lo, hi;
        uint32_t top = std::min<uint32_t>(g_mem, 0x10000);
        switch (cls) {
        case 1: lo = 0x4000; hi = 0x7000; break;      // packed
        case 2: lo = 0x7000; hi = 0x7800; break;
        case 3: lo = 0x7800; hi = 0x8000; break;
        case 4: lo = 0x8000; hi = 0x9000; break;
        case 5: lo = 0x9000; hi = 0x9800; break;
        case 6: lo = 0x9800; hi = 0xa000; break;
        default: lo = DATA; hi = top; if (r.chance(30)) { lo = 0xa000; hi = 0xa100; } break;
        }
        if (r.one_in(40) ) { lo = top - 40; hi = top; }
        if (g_mem > 0x10000 && r.one_in(4)) { lo = 0x10000; hi = g_mem; }
        if (want_trap && r.one_in(3)) {     // deliberately out of range or at the very end
            if (r.chance(50)) return (g_mem - 16 + r.below(32)) & 0xffffff;
            return r.u32() & 0xffffff;
        }
        uint32_t a = lo + r.below(hi - lo - len > 0 ? hi - lo - len : 1);
        if (r.one_in(5)) a = (a & ~0x7ffu) + 2048 - r.below(16);     // around a storage-key block boundary
        if (align > 1 && !(want_trap && r.one_in(3))) a &= ~(align - 1);
        return a;
    }
    // base-displacement (and index) for an address; loads a register when none reaches.  Returns false when impossible.
    bool bd(uint32_t t, uint16_t &out, int *x, std::vector<uint8_t> &pre, uint32_t avoid = 0) {
        std::vector<std::pair<int, int>> c; 
        auto reach = [&](uint32_t sum) { return ((t - sum) & 0xffffff) < 0x1000; };
        for (int b = 1; b < 16; b++) {
            if (x) for (int i = 1; i < 16; i++) if (reach(ref.r[b] + ref.r[i])) c.push_back({ b, i });
            if (reach(ref.r[b])) { c.push_back({ b, 0 }); if (x) c.push_back({ 0, b }); }
        }
        if (t < 0x1000) c.push_back({ 0, 0 });
        if (c.empty() || r.one_in(6)) {
            // L reg,pool
            int b = 1 + r.below(15); for (int k = 0; k < 20 && (avoid >> b & 1); k++) b = 1 + r.below(15);
            if (avoid >> b & 1) return false;
            uint32_t d = r.below(0x1000);
            uint32_t v = ((t - d) & 0xffffff) | (r.u32() & 0xff000000);
            uint32_t pa = pool_word(v, 4); if (!pa) return false;
            pre.push_back(0x58); pre.push_back(b << 4); pre.push_back(pa >> 8); pre.push_back(pa);
            out = (uint16_t)(b << 12 | d); if (x) *x = 0;
            return true;
        }
        auto q = c[r.below(c.size())];
        uint32_t sum = (q.first ? ref.r[q.first] : 0) + (q.second ? ref.r[q.second] : 0);
        out = (uint16_t)(q.first << 12 | ((t - sum) & 0xfff)); if (x) *x = q.second;
        return true;
    }
    uint32_t code_target() {
        // an even address in the code area that is not inside an existing instruction
        for (int k = 0; k < 30; k++) {
            uint32_t a = r.chance(70) ? ref.ic + 2 * r.range(2, 40) : CODE + 2 * r.below((CODE_END - CODE) / 2 - 8);
            if (a >= CODE && a < CODE_END - 12 && started[a - CODE] == 0 && started[a - CODE + 2] == 0 && started[a - CODE + 4] == 0) return a;
        }
        return 0;
    }
    // one random instruction (possibly preceded by a load) into `out`
    bool instr(std::vector<uint8_t> &out, bool for_ex = false) {
        out.clear();
        static const uint8_t fixed[] = { 0x10,0x11,0x12,0x13,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x40,0x41,0x48,0x49,0x4a,0x4b,0x4c,0x4e,0x4f,0x50,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x98 };
        static const uint8_t logic[] = { 0x14,0x15,0x16,0x17,0x42,0x43,0x54,0x55,0x56,0x57,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xdc,0xdd };
        static const uint8_t bran[] = { 0x05,0x06,0x07,0x44,0x45,0x46,0x47,0x86,0x87,0x04 };
        static const uint8_t deci[] = { 0xf1,0xf2,0xf3,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xde,0xdf,0x4e,0x4f };
        static const uint8_t fpo[] = { 0x20,0x21,0x22,0x23,0x24,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x60,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f };
        static const uint8_t sys[] = { 0x08,0x09,0x80,0x82,0x04,0x93 };
        uint8_t op;
        int pr = profile; 
        if (r.chance(12)) pr = r.below(6);
        switch (pr) {
        case 0: op = r.pick(fixed); break;
        case 1: op = r.pick(logic); break;
        case 2: op = r.pick(bran); break;
        case 3: op = r.pick(deci); break;
        case 4: op = g_fp ? r.pick(fpo) : r.pick(fixed); break;
        case 5: op = r.pick(sys); break;
        default: { int q = r.below(g_fp ? 5 : 4); op = q == 0 ? r.pick(fixed) : q == 1 ? r.pick(logic) : q == 2 ? r.pick(bran) : q == 3 ? r.pick(deci) : r.pick(fpo); }
        }
        if (profile == 7 && r.one_in(4)) op = r.u32();     // any operation code
        if (want_trap && r.one_in(12)) op = r.u32();
        if (op == 0x0a || op == 0x83 || op == 0x84 || op == 0x85 || (op >= 0x9c && op <= 0x9f)) { if (!(ref.problem()) || op == 0x0a) return false; }
        if (for_ex && op == 0x44 && !r.one_in(10)) return false;
        std::vector<uint8_t> pre; uint8_t b[6] = { op, (uint8_t)r.u32(), 0, 0, 0, 0 };
        int len = op < 0x40 ? 2 : op < 0xc0 ? 4 : 6;
        bool fp = Ref360::is_fp(op);
        if (fp && !(want_trap && r.one_in(4))) b[1] &= op < 0x40 ? 0x66 : 0x6f;
        if (op < 0x40) {
            if ((op == 0x1c || op == 0x1d) && !(want_trap && r.one_in(3))) b[1] &= 0xef;
            if (op == 0x05 || op == 0x06 || op == 0x07) {
                if (r.chance(50)) b[1] &= 0xf0;     // no branch
                else {
                    uint32_t t = code_target(); if (!t) return false;
                    if (want_trap && r.one_in(3)) t |= 1;
                    int q = 1 + r.below(15); uint32_t pa = pool_word(t | (r.u32() & 0xff000000), 4); if (!pa) return false;
                    pre = { 0x58, (uint8_t)(q << 4), (uint8_t)(pa >> 8), (uint8_t)pa };
                    b[1] = (b[1] & 0xf0) | q;
                }
            }
            if (op == 0x08 || op == 0x09) {
                int q = 1 + r.below(15); uint32_t t = (DATA + r.below(g_mem - DATA)) & ~15u; if (want_trap && r.one_in(3)) t = r.u32();
                uint32_t pa = pool_word((t & 0xffffff) | (r.u32() & 0xff000000), 4); if (!pa) return false;
                pre = { 0x58, (uint8_t)(q << 4), (uint8_t)(pa >> 8), (uint8_t)pa };
                b[1] = (b[1] & 0xf0) | q;
            }
        } else if (op < 0xc0) {
            uint32_t t; uint16_t d; int x = 0; bool isrx = op < 0x80; int al = 1, ln = 4, cls = 0;
            bool noaddr = false;
            switch (op) {
            case 0x40: case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c: al = 2; break;
            case 0x50: case 0x54: case 0x55: case 0x56: case 0x57: case 0x58: case 0x59: case 0x5a: case 0x5b: case 0x5c: case 0x5d: case 0x5e: case 0x5f: al = 4; break;
            case 0x4e: al = 8; ln = 8; break; case 0x4f: al = 8; ln = 8; cls = 5; break;
            case 0x90: case 0x98: al = 4; ln = 64; break;
            case 0x82: al = 8; break;
            case 0x41: noaddr = r.chance(70); break;
            default: if (op >= 0x60 && op < 0x80) { al = op < 0x70 ? 8 : 4; ln = 8; cls = r.chance(85) ? 4 : 0; } if (op >= 0x88 && op <= 0x8f) noaddr = true; break;
            }
            if ((op == 0x5c || op == 0x5d || (op >= 0x8c && op <= 0x8f)) && !(want_trap && r.one_in(3))) b[1] &= 0xef;
            if (op >= 0x88 && op <= 0x8f) { int q = r.chance(60) ? 0 : r.below(16); d = q << 12 | (r.chance(80) ? (r.chance(30) ? r.below(4) : r.chance(20) ? 28 + r.below(8) : r.below(64)) : r.below(4096)); }
            else if (noaddr) { d = r.u32(); x = r.below(16); }
            else if (op == 0x45 || op == 0x46 || op == 0x47 || op == 0x86 || op == 0x87) {
                t = code_target(); if (!t) return false; if (want_trap && r.one_in(3)) t |= 1;
                if (!bd(t, d, isrx ? &x : nullptr, pre, 1u << (b[1] >> 4) | (op >= 0x86 ? 3u << (b[1] & 14) : 0))) return false;
            } else if (op == 0x82) {
                t = code_target(); if (!t) return false;
                uint64_t psw = (uint64_t)(r.chance(50) ? 0 : r.u32() & 0xff) << 56; psw |= (uint64_t)(ref.amwp & 1 || r.chance(50) ? r.below(16) : 0) << 52;
                if (r.chance(80)) psw &= ~(0xfull << 52);
                psw |= (uint64_t)((r.chance(80) ? 0 : 8) | 4 | (r.one_in(4) ? 1 : 0)) << 48; psw |= (uint64_t)(r.u32() & 0xffff) << 32;
                psw |= (uint64_t)(r.u32() & 0xff) << 24; psw |= t;
                uint32_t pa = pool_word(psw, 8); if (!pa) return false; d = pa; if (want_trap && r.one_in(4)) d += 4;
                b[1] = r.u32();
            } else if (op == 0x44) {
                // target instruction placed in the pool
                std::vector<uint8_t> tb; Gen *self = this; bool ok = false;
                for (int k = 0; k < 8 && !ok; k++) { ok = self->instr(tb, true); if (ok && tb.size() > 6) ok = false; }
                if (!ok) return false;
                uint32_t pa = (pool + 7) & ~7u; if (pa + 8 > POOL_END) return false; pool = pa + 8;
                for (size_t i = 0; i < tb.size(); i++) { p.img[pa + i] = tb[i]; ref.mem[pa + i] = tb[i]; }
                if (want_trap && r.one_in(4)) pa |= 1;
                if (!bd(pa, d, &x, pre, 1u << (b[1] >> 4))) return false;
                if (r.chance(50)) b[1] &= 0x0f;
            } else {
                t = target(al, ln, cls);
                if (!bd(t, d, isrx ? &x : nullptr, pre, 0)) return false;
            }
            if (isrx) b[1] = (b[1] & 0xf0) | x;
            if (op == 0x80) { }
            b[2] = d >> 8; b[3] = d;
        } else {
            uint16_t d1, d2; int c1 = 0, c2 = 0, l1 = 1, l2 = 1;
            if (op >= 0xf0) {
                if (r.chance(50)) b[1] &= 0x77;
                l1 = (b[1] >> 4) + 1; l2 = (b[1] & 15) + 1;
                if ((op == 0xfc || op == 0xfd) && !(want_trap && r.one_in(3))) { l2 = 1 + r.below(8); l1 = l2 + 1 + r.below(16 - l2); b[1] = (l1 - 1) << 4 | (l2 - 1); }
                c1 = c2 = 1; if (op == 0xf2) c2 = r.chance(70) ? 2 : 0; if (op == 0xf1) c2 = c1 = r.chance(70);
            } else {
                if (op != 0xdc && op != 0xdd && r.chance(70)) b[1] = r.below(r.chance(50) ? 8 : 40);
                l1 = l2 = b[1] + 1;
                if (op == 0xde || op == 0xdf) { c1 = 3; c2 = 1; if (r.chance(80)) b[1] = r.below(24); l1 = b[1] + 1; }
                if (op == 0xdc) { c2 = 0; l2 = 256; if (r.chance(80)) b[1] = r.below(24); l1 = b[1] + 1; }
                if (op == 0xdd) { c2 = r.chance(90) ? 6 : 0; l2 = 256; }
            }
            uint32_t t1 = target(1, l1, c1), t2 = target(1, l2, c2);
            if (op >= 0xf8 && r.chance(80)) {
                // line the operand up with a packed field: ends on a 16-byte boundary in the long area
                t1 = 0x4000 + 16 * (1 + r.below(500)) - l1; t2 = 0x4000 + 16 * (1 + r.below(500)) - l2;
                if (r.one_in(4)) t2 = t1 + l1 - l2;      // same low-order byte
            }
            if (op == 0xde || op == 0xdf) if (r.chance(85)) t2 = 0x4000 + 16 * (1 + r.below(500)) - r.range(1, 12);
            if (op < 0xf0 && r.one_in(4)) t2 = t1 + r.range(-6, 6);       // overlap
            if (!bd(t1, d1, nullptr, pre)) return false;
            if (pre.empty()) { if (!bd(t2, d2, nullptr, pre)) return false; }
            else { // first operand needs a load; find the second without clobbering that register
                std::vector<uint8_t> pre2; if (!bd(t2, d2, nullptr, pre2, 1u << (pre[1] >> 4)) ) return false;
                if ((d2 >> 12) == (pre[1] >> 4) && pre2.empty()) return false;
                pre.insert(pre.end(), pre2.begin(), pre2.end());
            }
            b[2] = d1 >> 8; b[3] = d1; b[4] = d2 >> 8; b[5] = d2;
        }
        out = pre; out.insert(out.end(), b, b + len);
        return true;
    }
    bool reserved(uint32_t a) { return a < DATA; }
    // Place `code` at ref.ic and step the reference over it; undo when not acceptable.
    bool try_place(const std::vector<uint8_t> &code, bool allow_trap) {
        uint32_t a = ref.ic; if (a < CODE || a + code.size() + 8 > CODE_END || (a & 1)) return false;
        for (size_t i = 0; i < code.size(); i++) if (started[a - CODE + i]) return false;
        Ref360 save = ref; std::vector<uint8_t> old(p.img.begin() + a, p.img.begin() + a + code.size());
        for (size_t i = 0; i < code.size(); i++) { p.img[a + i] = code[i]; ref.mem[a + i] = code[i]; }
        uint32_t end = a + code.size(); bool ok = true; int n = 0; std::vector<uint32_t> pth;
        while (ref.ic >= a && ref.ic < end && n < 4) {
            pth.push_back(ref.ic); ref.step(); n++;
            for (auto w : ref.wlog) if (w < DATA && !(ref.trap && w >= 0x18 && w < 0x30)) ok = false;
            if (ref.unpred || ref.note_guard_only) ok = false;
            if (ref.trap == 2) ok = false;
            if (ref.trap == 1) { if (!allow_trap) ok = false; break; }
            if (ref.dcare_cc || !ref.dcare_mem.empty() || !ref.dcare_reg.empty()) { ok = false; }
            if (!ok) break;
            if (ref.ic >= g_mem) { ok = allow_trap; break; }
        }
        if (ok && !ref.trap && (ref.ic < CODE || ref.ic + 20 > CODE_END || (ref.ic & 1))) ok = allow_trap && ((ref.ic & 1) || ref.ic >= g_mem);
        if (!ok) { std::copy(old.begin(), old.end(), p.img.begin() + a); ref = save; return false; }
        for (uint32_t q = a; q < end; q++) started[q - CODE] = 2;
        for (auto q : pth) { started[q - CODE] = 1; p.path.push_back(q); }
        steps += n; return true;
    }
    // Build a program; false = discard.
    bool build(int len) {
        fill(); started.assign(CODE_END - CODE, 0);
        if (profile == 6 || r.one_in(5)) for (uint32_t b = DATA >> 11; b < g_mem >> 11; b++) p.keys[b] = r.chance(60) ? r.below(16) : 0;
        ref.memsize = g_mem; ref.has_fp = g_fp;
        // initial registers and PSW
        for (int i = 0; i < 16; i++) {
            uint32_t v = r.chance(45) ? (DATA + r.below(std::min<uint32_t>(g_mem, 0x10000) - DATA - 0x800)) | (r.chance(40) ? r.u32() & 0xff000000 : 0) : corner32();
            put(p.img, INIT_R + 4 * i, v, 4);
        }
        for (int i = 0; i < 4; i++) put(p.img, INIT_F + 8 * i, fpval(), 8);
        uint32_t start = CODE + 2 * r.below(64);
        bool prob = r.one_in(3); uint32_t key = (profile == 6 ? r.chance(70) : r.one_in(4)) ? r.below(16) : 0;
        uint32_t hi = (r.chance(70) ? 0 : (r.u32() & 0xff) << 24) | key << 20 | (r.chance(80) ? 0 : 8) << 16 | 4 << 16 | (prob ? 1 : 0) << 16 | (r.u32() & 0xffff);
        uint32_t pmv = r.chance(60) ? 0 : r.below(16);
        put(p.img, INIT_PSW, hi, 4); put(p.img, INIT_PSW + 4, (r.below(4) << 28) | pmv << 24 | start, 4);
        ref.mem = p.img; memcpy(ref.skey, p.keys, sizeof ref.skey);
        ref.ic = PROLOG; ref.amwp = 0; ref.key = 0;
        for (int i = 0; i < 20 && ref.ic != start; i++) { ref.step(); if (ref.trap) return false; }
        if (ref.ic != start) return false;
        bool end_trap = r.chance(profile >= 6 ? 80 : 35); int tries = 0;
        while ((int)p.path.size() < len) {
            uint32_t ic = ref.ic;
            if (ic >= CODE && ic < CODE_END && started[ic - CODE] == 1) {   // loop back into existing code
                if (++tries > 300) return false;
                p.path.push_back(ic); ref.step(); if (ref.unpred) return false;
                for (auto w : ref.wlog) if (w < DATA && !ref.trap) return false;
                if (ref.trap) break;
                if ((int)p.path.size() > 3 * len + 50) return false;
                continue;
            }
            if (++tries > 40 * len + 200) return false;
            want_trap = end_trap && (int)p.path.size() + 1 >= len / 2 && r.one_in(3);
            std::vector<uint8_t> c; uint32_t pool0 = pool;
            if (!instr(c)) { pool = pool0; continue; }
            bool allow = end_trap || (int)p.path.size() > len / 2;
            if (!try_place(c, allow)) { pool = pool0; continue; }
            if (ref.trap) break;
            if (ref.ic & 1 || ref.ic >= g_mem) { p.path.push_back(ref.ic); ref.step(); break; }
        }
        want_trap = false;
        if (!ref.trap) {
            for (int k = 0; k < 20 && ref.ic >= CODE && ref.ic < CODE_END && started[ref.ic - CODE] == 1; k++) { p.path.push_back(ref.ic); ref.step(); if (ref.trap) break; if (ref.unpred) return false; for (auto w : ref.wlog) if (w < DATA) return false; }
        }
        if (!ref.trap) {
            uint32_t a = ref.ic; if (a < CODE || a + 2 > CODE_END || started[a - CODE] || started[a - CODE + 1]) return false;
            p.img[a] = 0x0a; p.img[a + 1] = r.u32();
        }
        return true;
    }
};

// Re-run the reference on the finished image.  Returns false when the outcome is not fully defined.
struct RefRun { Ref360 ref; std::vector<uint32_t> path; std::set<int> codes; std::set<uint32_t> dmem; std::set<int> dreg, dfpr; bool dcc = false, dilc = false; int trap = 0; uint8_t lastop = 0; uint64_t work = 0; };
static bool run_ref(const Prog &p, RefRun &R, int maxsteps) {
    Ref360 &f = R.ref; f.memsize = g_mem; f.has_fp = g_fp; f.mem = p.img; memcpy(f.skey, p.keys, sizeof f.skey);
    f.ic = 0; f.amwp = 0; f.key = 0;
    for (int n = 0; n < maxsteps; n++) {
        uint32_t pc = f.ic; uint8_t op = f.valid(pc) ? f.mem[pc] : 0;
        bool handler = pc >= H_SVC && pc < PROLOG;
        if (f.mem[MARK]) return true;
        f.step();
        if (f.unpred || f.note_guard_only) return false;
        for (auto w : f.wlog) if (w >= POOL && w < DATA) return false;
        if (!handler && (pc >= CODE && pc < CODE_END)) { R.path.push_back(pc); R.lastop = op; R.work += (op >= 0xc0 ? 8 + 12 * 256 : op == 0x90 || op == 0x98 ? 200 : 60); }
        if (f.trap) {
            if (handler || R.trap) return false;
            R.trap = f.trap; R.codes = f.codes; R.dmem = f.dcare_mem; R.dreg = f.dcare_reg; R.dfpr = f.dcare_fpr; R.dcc = f.dcare_cc; R.dilc = f.dcare_ilc;
            // the register and condition-code don't-cares land in the saved areas
        } else if (f.dcare_cc || !f.dcare_mem.empty() || !f.dcare_reg.empty()) { if (!f.trap) return false; }
        if (pc < H_SVC && pc > 8) return false;
    }
    return false;
}

// Compare; empty string = agree.  `what` receives the class of the first difference.
struct Diff { uint32_t a; uint8_t g, e; };
static std::vector<Diff> g_diffs;
static std::string compare(const Prog &p, const RefRun &R, const Result &M, std::string &what) {
    const Ref360 &f = R.ref; g_diffs.clear();
    if (!M.trouble.empty()) { what = "trouble"; return M.trouble; }
    if (!M.done) { what = "hang"; return fmt("no interruption handler reached in %llu cycles", (unsigned long long)M.cycles); }
    int wmark = f.mem[MARK];
    if (M.mark != wmark) { what = M.mark == 4 ? "machine-check" : fmt("handler%d-not-%d", M.mark, wmark); return fmt("handler %d entered, expected %d; old psw pgm %08x %08x svc %08x %08x", M.mark, wmark, Machine::getw(0x28), Machine::getw(0x2c), Machine::getw(0x20), Machine::getw(0x24)); }
    std::set<uint32_t> dc = R.dmem;
    for (int i : R.dreg) for (int k = 0; k < 4; k++) dc.insert(SAVE_R + 4 * i + k);
    for (int i : R.dfpr) for (int k = 0; k < 8; k++) dc.insert(SAVE_F + 8 * i + k);
    if (R.trap == 1) {
        int code = Machine::getb(0x2b) | Machine::getb(0x2a) << 8;
        if (!R.codes.count(code)) { what = fmt("code%d-not-%d", code, *R.codes.begin()); std::string s; for (int c : R.codes) s += fmt("%d ", c); return fmt("interruption code %d, expected one of %s", code, s.c_str()); }
        dc.insert(0x2b);
    }
    std::string d; int nd = 0;
    for (uint32_t a = 0; a < g_mem; a++) {
        uint8_t g = Machine::getb(a), e = f.mem[a];
        if (!Machine::parity_ok(a)) { what = "parity"; return fmt("bad parity at %x: %03x", a, 0); }
        if (g == e || dc.count(a)) continue;
        if (a == 0x2c) { uint8_t m = 0xff; if (R.dcc) m &= ~0x30; if (R.dilc) m &= ~0xc0; if (((g ^ e) & m) == 0) continue;
            if (what.empty()) what = ((g ^ e) & m & 0x30) ? "cc" : ((g ^ e) & m & 0xc0) ? "ilc" : "pm"; }
        if (a == 0x24 && what.empty()) what = ((g ^ e) & 0x30) ? "cc" : ((g ^ e) & 0xc0) ? "ilc" : "pm";
        if (R.dilc && a >= 0x2d && a <= 0x2f) continue;
        if (what.empty()) what = a < 0x80 ? "psw" : a >= SAVE_R && a < SAVE_R + 64 ? "reg" : a >= SAVE_F && a < SAVE_F + 32 ? "fpr" : a < DATA ? "low" : "mem";
        g_diffs.push_back({ a, g, e });
        if (nd++ < 12) d += fmt("[%04x]=%02x exp %02x; ", a, g, e);
    }
    if (nd) return d;
    for (uint32_t b = 0; b < g_mem >> 11; b++) if (Machine::getkey(b) != f.skey[b]) { what = "key"; return fmt("storage key of block %d is %x, expected %x", b, Machine::getkey(b), f.skey[b]); }
    return "";
}

static std::string disas(const std::vector<uint8_t> &m, uint32_t a) {
    std::string s = fmt("%04x:", a); if (a + 6 > m.size()) return s; int n = m[a] < 0x40 ? 2 : m[a] < 0xc0 ? 4 : 6;
    s += mnem(m[a]); s += " "; for (int i = 0; i < n; i++) s += fmt("%02x", m[a + i]); return s;
}

// Operands of the instruction at `at` in the reference state just before it runs for the n-th time.
static std::string operands(const Prog &p, size_t nth) {
    Ref360 f; f.memsize = g_mem; f.has_fp = g_fp; f.mem = p.img; memcpy(f.skey, p.keys, sizeof f.skey); f.ic = 0; f.amwp = 0; f.key = 0;
    size_t k = 0; for (int n = 0; n < 800; n++) { if (f.ic >= CODE && f.ic < CODE_END) { if (k == nth) break; k++; } f.step(); }
    std::string s = "{"; const uint8_t *b = &f.mem[f.ic]; uint8_t op = b[0]; uint8_t tb[6];
    auto one = [&](const uint8_t *b) {
        uint8_t op = b[0]; int r1 = b[1] >> 4, r2 = b[1] & 15; std::string s;
        if (op < 0xc0) { if (Ref360::is_fp(op)) { s += fmt("f%d=%016llx ", r1, (unsigned long long)f.f[r1 >> 1 & 3]); if (op < 0x40) s += fmt("f%d=%016llx ", r2, (unsigned long long)f.f[r2 >> 1 & 3]); }
            else { s += fmt("r%d=%08x r%d=%08x ", r1, f.r[r1], r1 ^ 1, f.r[r1 ^ 1]); if (op < 0x40 || op >= 0x80) s += fmt("r%d=%08x r%d=%08x ", r2, f.r[r2], r2 | 1, f.r[r2 | 1]); } }
        if (op >= 0x40) { uint32_t a = f.ea(b[2] << 8 | b[3], op < 0x80 ? r2 : 0); s += fmt("@%06x:", a); for (int i = 0; i < 16; i++) if (f.valid(a + i)) s += fmt("%02x", f.ld1(a + i)); s += fmt(" k%x ", f.valid(a) ? f.skey[a >> 11] : 0); }
        if (op >= 0xc0) { uint32_t a = f.ea(b[4] << 8 | b[5], 0); s += fmt("@%06x:", a); for (int i = 0; i < 16; i++) if (f.valid(a + i)) s += fmt("%02x", f.ld1(a + i)); }
        return s; };
    s += one(b);
    if (op == 0x44) { uint32_t a = f.ea(b[2] << 8 | b[3], b[1] & 15); if (!(a & 1) && f.valid(a + 5)) { for (int i = 0; i < 6; i++) tb[i] = f.ld1(a + i); if (b[1] >> 4) tb[1] |= f.r[b[1] >> 4]; s += std::string("-> ") + mnem(tb[0]) + fmt(" %02x%02x%02x%02x%02x%02x ", tb[0], tb[1], tb[2], tb[3], tb[4], tb[5]) + one(tb); } }
    s += fmt("cc%d pm%x key%x amwp%x} ", f.cc, f.pm, f.key, f.amwp); return s;
}

static bool check_prog(const Prog &p, RefRun &R, Result &M, std::string &what, std::string &det) {
    if (!run_ref(p, R, 800)) return true;
    M = run_machine(p, 60000 + R.work * 60);
    what.clear(); det = compare(p, R, M, what);
    return det.empty();
}

int main(int argc, char **argv) {
    log_level = 0; init(argc, argv);
    if (getenv("CPU_TRACE")) { log_init((char *)getenv("CPU_TRACE")); log_enable = 1; log_level = LOG_MICRO | LOG_REG | LOG_MEM; }
    char letter = 'F'; int only = -1;
    for (auto &a : C().args) { if (a.size() == 1 && isupper(a[0])) letter = a[0]; if (a.rfind("prof=", 0) == 0) only = atoi(a.c_str() + 5); if (a == "nofp") g_fp = false; }
    Machine::configure(letter); g_mem = mem_max + 1;
    cases([&](uint64_t ci, Rng &r) {
        static const int mix[] = { 0, 0, 1, 1, 2, 3, 3, 4, 4, 6, 7, 8, 8 };
        int prof = only >= 0 ? only : r.pick(mix);
        Gen g(r, prof);
        int len = r.chance(30) ? r.range(1, 4) : r.range(4, 30);
        bool ok = false; for (int k = 0; k < 10 && !ok; k++) { g.~Gen(); new (&g) Gen(r, prof); ok = g.build(len); }
        if (!ok) { tally("discarded"); return; }
        RefRun R; Result M; std::string what, det;
        if (!run_ref(g.p, R, 800)) { tally("discarded"); return; }
        M = run_machine(g.p, 60000 + R.work * 60);
        tally("programs"); tally("instructions", R.path.size()); tally("cycles", M.cycles);
        { // signatures: operation x outcome of the final interruption, and operation n-grams executed
            for (size_t i = 0; i < R.path.size(); i++) { seen("opcodes", (uint64_t)R.ref.mem[R.path[i]]); if (i) seen("op_pairs", (uint64_t)R.ref.mem[R.path[i - 1]] << 8 | R.ref.mem[R.path[i]]); }
            int code = R.trap == 1 ? *R.codes.begin() : 0;
            seen("op_outcome", (uint64_t)R.lastop << 16 | code << 8 | R.ref.mem[R.trap == 1 ? 0x2c : 0x24] >> 4);
            seen("final_states", hash_bytes(&R.ref.mem[SAVE_R], 0x60, R.lastop));
            if (R.trap == 1) tally(fmt("program_interruptions")); else tally("supervisor_calls");
        }
        det = compare(g.p, R, M, what);
        if (C().one >= 0 && C().verbose) { for (auto a : R.path) fprintf(stderr, "  %s\n", disas(R.ref.mem, a).c_str()); fprintf(stderr, "trap %d codes %s\n", R.trap, R.codes.empty() ? "-" : fmt("%d", *R.codes.begin()).c_str()); }
        if (det.empty()) { if (ci % 997 == 0) { std::string s; for (size_t i = 0; i < R.path.size() && i < 12; i++) s += disas(R.ref.mem, R.path[i]) + " / "; sample(s + fmt("-> trap %d", R.trap)); } return; }
        // locate the first instruction after which the machine disagrees
        
        std::string cul = mnem(R.lastop), cw = what, cd = det; uint32_t ca = R.path.empty() ? 0 : R.path.back();
        for (size_t k = 1; k < R.path.size(); k++) {
            Prog q = g.p; uint32_t at = R.path[k]; bool again = false;
            for (size_t j = 0; j < k; j++) { uint32_t x = R.path[j]; int n = g.p.img[x] < 0x40 ? 2 : g.p.img[x] < 0xc0 ? 4 : 6; if (at + 1 >= x && at < x + n) again = true; }
            if (again) continue;
            q.img[at] = 0x0a; q.img[at + 1] = 0x77;
            RefRun Rb; Result Mb; std::string w2, d2;
            if (!check_prog(q, Rb, Mb, w2, d2)) { cul = mnem(g.p.img[R.path[k - 1]]); ca = R.path[k - 1]; cw = w2; cd = d2; if (g.p.img[ca] == 0x44) cul = "EX"; break; }
        }
        std::string hist; size_t st = 0; for (size_t i = 0; i < R.path.size(); i++) if (R.path[i] == ca) { st = i; break; }
        for (size_t i = st > 3 ? st - 3 : 0; i <= st && i < R.path.size(); i++) hist += disas(g.p.img, R.path[i]) + " / ";
        // refine the key so that a listed finding stays specific
        { Ref360 f; f.memsize = g_mem; f.has_fp = g_fp; f.mem = g.p.img; memcpy(f.skey, g.p.keys, sizeof f.skey); f.ic = 0; f.amwp = 0; f.key = 0;
          size_t k = 0; for (int n = 0; n < 800; n++) { if (f.ic >= CODE && f.ic < CODE_END) { if (k == st) break; k++; } f.step(); }
          const uint8_t *b = &f.mem[f.ic]; uint8_t tb[6]; memcpy(tb, b, 6); std::string via;
          if (b[0] == 0x44) {     // the subject instruction is what matters
              uint32_t a = f.ea(b[2] << 8 | b[3], b[1] & 15);
              if (!(a & 1) && f.valid(a + 5)) { for (int i = 0; i < 6; i++) tb[i] = f.ld1(a + i); if (b[1] >> 4) tb[1] |= f.r[b[1] >> 4]; via = "EX>"; cul = mnem(tb[0]); }
          }
          
          cul = via + cul;
          if (f.ascii()) cul += "(ascii)"; }
        std::string key = std::string("diff:") + Machine::name() + ":" + cul + ":" + cw;
        if (!R.ref.kf.empty()) key = std::string("listed:") + Machine::name() + ":" + *R.ref.kf.begin();
        violation(key, hist + operands(g.p, st) + cd + fmt(" (profile %d psw %08x %08x)", prof, (unsigned)(g.p.img[INIT_PSW] << 24 | g.p.img[INIT_PSW + 1] << 16), (unsigned)g.p.img[INIT_PSW + 4]));
    });
    return finish();
}
