// Channel I/O: random channel programs on scriptable devices, several at once, while the CPU computes.
// Oracle: an interpreter of channel programs (System/360 Principles of Operation) says what is stored, what the
// devices see and what the CSWs report; every status a device presents must reach the program exactly once.
#include "vh.hpp"
#include "machine.hpp"
#include "stubs.hpp"
#include "ref360.hpp"
#include "vdev.hpp"
#include <memory>
using namespace vh;
static uint32_t g_mem = 65536; static bool g_broken = false;   // the machine hung: later cases of this process would say nothing
static Machine mach;
static std::string g_off; static bool on(char f) { return g_off.find(f) == std::string::npos; }
enum { HANDLER = 0x300, LOGP = 0x200, PEND = 0x204, SAVE = 0x210, ONES = 0x240, MARK = 0x250, POLL_ON = 0x254, CAWS = 0x260, CODE = 0x1000, CALC = 0x2000, WORK = 0x3000, RES = 0x3800, LOG = 0x4000, CCWS = 0x5000, BUF = 0x6000, BUF_END = 0xf000, WAITPSW = 0x2c0 };
struct Asm {
    uint32_t pc;
    void h(uint16_t v) { Machine::setb(pc, v >> 8); Machine::setb(pc + 1, v); pc += 2; }
    void rx(uint8_t op, int r, uint32_t d, int b = 0, int x = 0) { h(op << 8 | r << 4 | x); h(b << 12 | (d & 0xfff)); }
    void rr(uint8_t op, int a, int b) { h(op << 8 | a << 4 | b); }
    void rs(uint8_t op, int a, int c, uint32_t d, int b = 0) { h(op << 8 | a << 4 | c); h(b << 12 | (d & 0xfff)); }
    void si(uint8_t op, uint8_t i, uint32_t d, int b = 0) { h(op << 8 | i); h(b << 12 | (d & 0xfff)); }
    void ss(uint8_t op, int l, uint32_t d1, int b1, uint32_t d2, int b2) { h(op << 8 | (l - 1)); h(b1 << 12 | (d1 & 0xfff)); h(b2 << 12 | (d2 & 0xfff)); }
    void fix(uint32_t at, uint32_t to) { Machine::setb(at + 2, (Machine::getb(at + 2) & 0xf0) | ((to - (CODE & ~0xfff)) >> 8 & 15)); Machine::setb(at + 3, to); }
};
struct Ccw { uint32_t at; uint8_t cmd, flags; uint32_t addr; uint16_t count; };
// What one start-I/O must lead to.
struct Exp {
    int cc = 0;                 // condition code of SIO
    uint8_t us = 0;             // union of unit status bits over the operation (CE, DE, SMS, UC, UE)
    uint8_t cs = 0, csmask = 0xff; // channel status without PCI
    uint32_t ca = 0; int count = 0; bool ck_count = true, ck_us = true, ce_only_first = false, immediate = false;
    int pcis = 0; uint32_t pci_lo = 0; uint8_t key = 0; std::set<uint32_t> pci_ca;
    bool ce_opt = false, last_imm = false;
};
struct Rec { uint32_t w0, w1, x, who; uint8_t type; uint32_t y; };
static void expect(std::vector<VPlan> &acc, const std::map<uint32_t, VPlan> &plans, uint32_t caw, const std::map<uint32_t, Ccw> &prog, std::map<uint32_t, uint8_t> &mem, const uint8_t *skey, std::vector<VRec> &recs, Exp &e) {
    uint8_t key = caw >> 28; e.key = key; uint32_t a = caw & 0xffffff;
    auto get = [&](uint32_t x) { auto i = mem.find(x); return i == mem.end() ? (uint8_t)0 : i->second; };
    auto reject = [&] { e.cc = 1; e.cs = 0x20; e.us = 0; };
    if ((caw & 0x0f000000) || (a & 7)) { reject(); return; }
    bool first = true;
    for (;;) {  // one command
        bool tic = false; const Ccw *c; 
        for (;;) { auto i = prog.find(a); if (i == prog.end()) { fprintf(stderr, "harness: no CCW at %x\n", a); abort(); } c = &i->second; a += 8; if ((c->cmd & 15) == 8) { if (first || tic || (c->addr & 7)) { if (first) { reject(); return; } e.cs = 0x20; e.ca = a; e.ck_count = false; e.ck_us = false; return; } tic = true; a = c->addr; continue; } break; }
        if (c->count == 0 || (c->flags & 7) || (c->cmd & 15) == 0) { if (first) { reject(); return; } e.cs = 0x20; e.ca = a; e.ck_count = false; e.ck_us = false; return; }
        VPlan p; { auto i = plans.find(c->at); if (i != plans.end() && i->second.cmd == c->cmd) p = i->second; else { p.n = c->count; { const Ccw *q = c; uint32_t b = a; for (int hops = 0; (q->flags & 0x80) && hops < 20; hops++) { auto j = prog.find(b); if (j == prog.end()) break; q = &j->second; b += 8; if ((q->cmd & 15) == 8) { b = q->addr; j = prog.find(b); if (j == prog.end()) break; q = &j->second; b += 8; } p.n += q->count; } } for (int k = 0; k < p.n; k++) p.data.push_back(k * 7 + 3); if ((c->cmd & 3) == 3) p.init = SNS_CHNEND | SNS_DEVEND; } p.cmd = c->cmd; acc.push_back(p); }
        uint8_t cmd = c->cmd; recs.push_back(VRec{ cmd, {}, 0, false }); VRec &rec = recs.back();
        if (c->flags & 8) { e.pcis++; e.pci_ca.insert(a); }
        bool cc = c->flags & 0x40, cd = c->flags & 0x80; uint8_t endst; bool il = false; int left = c->count; bool prot = false;
        e.last_imm = p.init;
        if (p.init) {
            endst = p.init | ((p.init & SNS_DEVEND) ? 0 : SNS_DEVEND | p.endst);
            if (first && (!cc || (p.init & (SNS_UNITCHK | SNS_UNITEXP)) || cd)) { e.cc = 1; e.immediate = true; e.us = endst; e.cs = 0; return; }
            if ((p.init & SNS_CHNEND) == 0) { e.us = endst; e.ca = a; e.count = left; return; }
        } else {
            endst = SNS_CHNEND | SNS_DEVEND | p.endst; uint32_t ad = c->addr; bool wr = cmd & 1, back = (cmd & 15) == 12; bool skip = c->flags & 0x10; int k = 0; bool stop = false;
            while (k < p.n) {
                if (left == 0) {
                    stop = true; if (!(c->flags & 0x20)) il = true; break;
                }
                if (wr) rec.got.push_back(get(ad)); else { if (!skip) { if (key && skey[ad >> 11] != key) { prot = true; stop = true; break; } mem[ad] = p.data[k]; } rec.sent++; }
                ad += back ? -1 : 1; k++; left--;
                if (left == 0 && cd) {
                    tic = false; for (;;) { auto i = prog.find(a); if (i == prog.end()) { fprintf(stderr, "harness: no CCW at %x\n", a); abort(); } c = &i->second; a += 8; if ((c->cmd & 15) == 8) { if (tic || (c->addr & 7)) { e.cs = 0x20; e.ca = a; e.ck_count = false; e.ck_us = false; return; } tic = true; a = c->addr; continue; } break; }
                    if (c->count == 0 || (c->flags & 7)) { e.cs = 0x20; e.ca = a; e.ck_count = false; e.ck_us = false; return; }
                    cc = c->flags & 0x40; cd = c->flags & 0x80; left = c->count; ad = c->addr; skip = c->flags & 0x10; if (c->flags & 8) { e.pcis++; e.pci_ca.insert(a); }
                }
            }
            rec.stopped = stop; if (!stop && left > 0 && (!(c->flags & 0x20) || cd)) il = true;
        }
        first = false;
        if ((p.ce_first || (p.init && !(p.init & SNS_DEVEND))) && cc && !cd && !il && !prot && (endst & (SNS_UNITCHK | SNS_UNITEXP))) e.ce_opt = true;
        if (prot || il || !cc || cd || (endst & (SNS_UNITCHK | SNS_UNITEXP | SNS_ATTN))) { e.us = endst; e.cs = (il ? 0x40 : 0) | (prot ? 0x10 : 0); if (prot) { e.csmask = ~0x40; e.ck_count = false; } e.ca = a; e.count = left; return; }
        if (endst & SNS_SMS) a += 8;
    }
}
struct Calc { std::vector<uint16_t> hw; };
// straight-line code on registers 0-9 and the work area (base 10), looped with register 11
static void gen_calc(Rng &r, Asm &as, uint32_t at, int n) {
    as.pc = at;
    for (int i = 0; i < n; i++) {
        int a = r.below(10), b = r.below(10), d = r.below(0x200); int dw = d & ~3, dh = d & ~1, e = r.below(0x200);
        switch (r.below(16)) {
        case 0: as.rr(r.pick<uint8_t>({ 0x1a, 0x1b, 0x1e, 0x1f, 0x14, 0x16, 0x17 }), a, b); break;
        case 1: as.rr(r.pick<uint8_t>({ 0x18, 0x12, 0x13, 0x10, 0x11, 0x19, 0x15 }), a, b); break;
        case 2: as.rx(0x58, a, dw, 10); break;
        case 3: as.rx(0x50, a, dw, 10); break;
        case 4: as.rx(r.pick<uint8_t>({ 0x5a, 0x5b, 0x5e, 0x5f, 0x54, 0x56, 0x57, 0x59, 0x55 }), a, dw, 10); break;
        case 5: as.rx(r.pick<uint8_t>({ 0x48, 0x40, 0x4a, 0x4b, 0x49, 0x4c }), a, dh, 10); break;
        case 6: as.rx(r.pick<uint8_t>({ 0x42, 0x43 }), a, d, 10); break;
        case 7: as.rr(0x1c, a & ~1, b); break;
        case 8: as.rs(r.pick<uint8_t>({ 0x88, 0x89, 0x8a, 0x8b }), a, 0, r.below(40)); break;
        case 9: as.rs(r.pick<uint8_t>({ 0x8c, 0x8d, 0x8e, 0x8f }), a & ~1, 0, r.below(64)); break;
        case 10: as.ss(r.pick<uint8_t>({ 0xd2, 0xd7, 0xd4, 0xd6, 0xd5 }), r.range(1, 40), d, 10, e, 10); break;
        case 11: as.ss(r.pick<uint8_t>({ 0xf1, 0xf2, 0xf3 }), 1, d, 10, e, 10); Machine::setb(as.pc - 5, r.below(256)); break;
        case 12: as.rx(0x4e, a, (d & 0x1f8) + 0x200, 10); break;
        case 13: as.rs(0x90, a, a + r.below(10 - a), dw, 10); break;
        case 14: as.rs(0x98, a, a + r.below(10 - a), dw, 10); break;
        default: as.si(r.pick<uint8_t>({ 0x92, 0x94, 0x96, 0x97, 0x95, 0x91 }), r.below(256), d, 10); break;
        }
    }
    as.rx(0x46, 11, 0, 12);
}
static void body(uint64_t ci, Rng &r) {
    // machine
    if (g_broken) { tally("skipped_after_hang"); return; }
    note("reset");
#ifdef M2030
    int nch = 3;
#else
    int nch = 4;
#endif
    std::vector<std::unique_ptr<VDev>> devs; for (int i = 0; i < 8; i++) chan[i] = nullptr;
    int nd = !on('m') || r.one_in(3) ? 1 : r.range(1, 4); std::set<int> used;
    for (int i = 0; i < nd; i++) {
        int c = !on('s') ? 0 : r.one_in(2) && on('x') ? 0 : r.below(nch); if (!on('x') && c == 0) c = 1; uint16_t ad = c == 0 ? r.range(0x0a, 0x1e) : r.below(256); int key = c ? c << 8 : ad; if (!used.insert(key).second) continue; ad |= c << 8;
        devs.emplace_back(new VDev(ad)); struct _device **q = &chan[c]; while (*q) q = &(*q)->next; *q = &devs.back()->unit;
    }
    // no device of an earlier case holds a tag line up any longer
#ifdef M2030
    cpu_2030.MPX_TAGS &= 0xff00; cpu_2030.SEL_TAGS[0] &= 0xff00; cpu_2030.SEL_TAGS[1] &= 0xff00;
#else
    cpu_2050.MPX_TAGS &= 0xff00; for (int i = 0; i < 4; i++) { cpu_2050.TAGS[i] &= 0xff00; cpu_2050.TAGS_IN[i] &= 0xff00; }
#endif
    mach.reset();
    for (uint32_t a = 0; a < 0x10000; a += 4) Machine::setw(a, 0);
    for (int b = 0; b < 32; b++) Machine::setkey(b, 0);
    uint8_t skey[512]; memset(skey, 0, sizeof skey);
    std::map<uint32_t, uint8_t> mem; for (uint32_t a = BUF - 64; a < BUF_END; a++) { uint8_t v = r.below(256); mem[a] = v; Machine::setb(a, v); }
    uint8_t pkey = on('k') && r.one_in(3) ? r.range(1, 15) : 0; bool misprot = pkey && r.one_in(3);
    if (pkey) for (int b = BUF >> 11; b < BUF_END >> 11; b++) { skey[b] = misprot && r.one_in(3) ? (r.one_in(2) ? 0 : pkey ^ 1) : pkey; Machine::setkey(b, skey[b]); }
    Asm as; std::map<uint32_t, Ccw> prog; std::map<uint32_t, VPlan> plans; uint32_t ccw = CCWS, buf = BUF;
    auto putccw = [&](uint8_t cmd, uint32_t addr, uint8_t fl, uint16_t cnt) { Ccw c{ ccw, cmd, fl, addr, cnt }; prog[ccw] = c; Machine::setw(ccw, (uint32_t)cmd << 24 | addr); Machine::setw(ccw + 4, (uint32_t)fl << 24 | cnt); ccw += 8; };
    // fixed code
    Machine::setw(0x58, 0x00020000); Machine::setw(0x5c, 0xe58); Machine::setw(0x60, 0x00020000); Machine::setw(0x64, 0xe60); Machine::setw(0x68, 0x00020000); Machine::setw(0x6c, 0xe68); Machine::setw(0x70, 0x00020000); Machine::setw(0x74, 0xe70); Machine::setw(0x78, 0); Machine::setw(0x7c, HANDLER);
    for (int i = 0; i < 8; i++) Machine::setb(ONES + i, 0xff); Machine::setb(0x258, 0); Machine::setb(0x259, 0xff); Machine::setw(LOGP, LOG);
    as.pc = HANDLER; as.rs(0x90, 12, 15, SAVE); as.rx(0x58, 15, LOGP); as.ss(0xd2, 8, 0, 15, 0x40, 0); as.ss(0xd2, 8, 8, 15, 0x38, 0); as.si(0x92, 2, 16, 15); as.rx(0x41, 15, 24, 15); as.rx(0x50, 15, LOGP);
    uint32_t hd = as.pc + 4 * 6; as.si(0x91, 4, 0x44); as.rx(0x47, 1, hd); as.si(0x91, 8, 0x44); uint32_t hx = hd + 4 + 2 + 4 + 2 + 4 + 4; as.rx(0x47, 1, hx); as.si(0x91, 0x3f, 0x45); as.rx(0x47, 8, hx);
    as.rx(0x58, 15, PEND); as.rr(0x06, 15, 0); as.rx(0x50, 15, PEND); as.rr(0x12, 15, 15); as.rx(0x47, 7, hx); as.si(0x94, 0xfd, 0x39);
    as.ss(0xd2, 8, 0x40, 0, ONES, 0); as.rs(0x98, 12, 15, SAVE); as.si(0x82, 0, 0x38);
    // record routines
    uint32_t REC = 0x380; as.pc = REC; as.rx(0x58, 15, LOGP); as.ss(0xd2, 8, 0, 15, 0x40, 0); as.rx(0x50, 14, 8, 15); as.rx(0x50, 13, 12, 15); as.si(0x92, 1, 16, 15); as.rx(0x41, 15, 24, 15); as.rx(0x50, 15, LOGP);
    uint32_t dec = as.pc + 4 * 6, ret = dec + 10; as.rx(0x47, 8, ret); as.rx(0x47, 3, dec); as.si(0x91, 4, 0x44); as.rx(0x47, 1, dec); as.si(0x91, 8, 0x44); as.rx(0x47, 1, ret); as.rx(0x58, 15, PEND); as.rr(0x06, 15, 0); as.rx(0x50, 15, PEND); as.ss(0xd2, 8, 0x40, 0, ONES, 0); as.rr(0x07, 15, 14);
    uint32_t REC2 = as.pc; uint32_t q; // TIO: record when condition code 1 and not merely busy
    uint32_t r2ret = REC2 + 76;
    as.rx(0x47, 11, r2ret); as.si(0x95, 0x10, 0x44); as.rx(0x47, 8, r2ret); as.rx(0x58, 15, LOGP); as.ss(0xd2, 8, 0, 15, 0x40, 0); as.rx(0x50, 14, 8, 15); as.rx(0x50, 13, 12, 15); as.si(0x92, 3, 16, 15); as.rx(0x41, 15, 24, 15); as.rx(0x50, 15, LOGP);
    uint32_t d2 = as.pc + 4 * 6; as.si(0x91, 4, 0x44); as.rx(0x47, 1, d2); as.si(0x91, 8, 0x44); as.rx(0x47, 1, r2ret); as.si(0x91, 0x3f, 0x45); as.rx(0x47, 8, r2ret); as.rx(0x58, 15, PEND); as.rr(0x06, 15, 0); as.rx(0x50, 15, PEND); q = as.pc; as.ss(0xd2, 8, 0x40, 0, ONES, 0); as.rr(0x07, 15, 14); if (q != r2ret) { fprintf(stderr, "asm %x %x\n", q, r2ret); abort(); }
    if (as.pc > 0x460) abort();
    // rounds
    struct Op { int dev; uint32_t caw; Exp e; std::string txt; }; std::vector<Op> ops; int nr = on('r') ? r.range(1, 3) : 1; uint32_t pc = 0x460, lit = 0xc00; bool calc = false; int caln = r.range(4, 40), loops = r.range(2, 60);
    std::vector<std::vector<VRec>> want(devs.size()); std::vector<size_t> pidx(devs.size(), 0); std::string modes; uint64_t sig = 0;
    auto word = [&](uint32_t v) { Machine::setw(lit, v); lit += 4; return lit - 4; };
    for (int rd = 0; rd < nr; rd++) {
        int mode = r.below(4); if (!on('t') && mode == 2) mode = 0; if (!on('c') && mode == 1) mode = 0; if (calc && mode == 1) mode = 0; if (rd == nr - 1 && r.one_in(2) && !calc && on('c')) mode = 1; modes += fmt("%d", mode); std::vector<int> who; for (size_t i = 0; i < devs.size(); i++) if (devs.size() == 1 || !r.one_in(4)) who.push_back(i); if (who.empty()) who.push_back(0);
        as.pc = pc; as.si(0x80, 0, 0x258); as.rx(0x58, 15, word(who.size())); as.rx(0x50, 15, PEND);
        for (int w : who) {
            VDev &d = *devs[w]; bool mpx = d.addr < 0x100; Op op; op.dev = w; int nc = !on('C') || r.one_in(3) ? 1 : r.range(1, 4); uint8_t k = pkey && !r.one_in(5) ? pkey : 0; ccw = (ccw + 7) & ~7; op.caw = (uint32_t)k << 28 | ccw; op.txt = fmt("SIO %03x key %x:", d.addr, k);
            bool sms = false, psms = false;
            for (int c = 0; c < nc; c++) {
                bool last = c == nc - 1; VPlan p; int ty = r.below(14); if (!on('i') && ty >= 12) ty = 0; if (!on('e') && (ty == 10 || ty == 11)) ty = 0; if (!on('b') && ty == 8) ty = 4; if (!on('e') && ty == 13) ty = 12; uint8_t cmd; bool imm = false;
                if (ty < 4) cmd = 0x01; else if (ty < 8) cmd = 0x02; else if (ty < 9) cmd = 0x0c; else if (ty < 10) cmd = 0x04; else if (ty < 11) { cmd = 0x02; p.ce_first = true; } else if (ty < 12) { cmd = 0x01; p.ce_first = true; } else { cmd = 0x03; imm = true; if (ty == 13) { cmd = 0x13; p.init = SNS_CHNEND; } else p.init = SNS_CHNEND | SNS_DEVEND; }
                p.first = r.pick<int>({ 5, 20, 100, 300 }); p.gap = r.pick<int>({ 5, 20, 60, 200 }); p.de_delay = r.pick<int>({ 50, 300, 2000 }); p.burst = mpx && on(0x41) ? r.pick<int>({ 0, 1, 1, 2, 5 }) : 0;
                if (!on('u')) ; else if (r.one_in(12)) p.endst = r.pick<uint8_t>({ SNS_UNITCHK, SNS_UNITEXP }); else if (r.one_in(10)) p.endst = SNS_SMS; 
#ifdef M2030
                if (imm && p.endst == SNS_SMS) p.endst = 0;     // the Model 30 microprogram does not look for a status modifier in the initial status
#endif
                if (imm && (p.init & SNS_DEVEND)) { p.init |= p.endst; }
                psms = sms; sms = p.endst & SNS_SMS;
                bool sli = r.one_in(3); uint8_t base = (sli ? 0x20 : 0) | (last ? 0 : 0x40); int pieces = imm ? 1 : on('D') && r.one_in(3) ? r.range(2, 4) : 1; int tot = 0; std::vector<int> cnt; for (int i = 0; i < pieces; i++) { int n = r.one_in(3) ? r.range(1, 5) : r.range(1, 40); cnt.push_back(n); tot += n; }
                p.n = tot; int rel = on('l') ? r.below(10) : 9; if (!imm && rel < 2) { p.n = std::max(1, (int)r.below(tot)); int s = 0; for (int i = 0; i + 1 < pieces; i++) { s += cnt[i]; if (p.n == s) p.n++; } } else if (!imm && rel < 4) p.n = tot + r.range(1, 8);
                if (p.n == 0) p.n = 1; 
                for (int i = 0; i < p.n; i++) p.data.push_back(r.below(256)); p.cmd = cmd;
                op.txt += fmt(" [%02x n%d%s%s st%02x gap%d burst%d]", cmd, p.n, p.ce_first ? " ce-first" : "", imm ? " imm" : "", p.endst, p.gap, p.burst);
                for (int i = 0; i < pieces; i++) {
                    if (on('T') && (c || i) && r.one_in(8)) { uint32_t to = ccw + 8 + 8 * r.below(3); op.txt += " TIC"; prog[ccw] = Ccw{ ccw, 0x08, 0, to, 0 }; Machine::setw(ccw, 0x08000000 | to); Machine::setw(ccw + 4, r.one_in(2) ? 0 : r.u32()); prog[ccw].flags = 0; ccw += 8; while (ccw < to) putccw(0x03, BUF, 0x20, 1); }
                    bool lp = i == pieces - 1; uint8_t fl = base; if (!lp) fl = (fl & ~0x40) | 0x80 | (r.one_in(2) ? base & 0x40 : 0); if (on('S') && !(cmd & 1) && r.one_in(6)) fl |= 0x10; if (on('P') && r.one_in(12)) fl |= 8;
                    uint32_t at = buf + r.below(9), span = cnt[i]; if (r.one_in(20) && !pkey) at = (at + 0x7ff) & ~0x7ff; if (at + span + 80 > BUF_END) { buf = BUF; at = buf; } buf = at + span; if (r.one_in(3)) buf += r.below(16);
                    uint32_t da = cmd == 0x0c ? at + span - 1 : at; putccw(i ? (r.one_in(2) || psms ? cmd : r.pick<uint8_t>({ 0, 0x01, 0x02, 0xff, 0x04 })) : cmd, da, fl, cnt[i]); if ((prog[ccw - 8].cmd & 15) == 8) { prog[ccw - 8].cmd = cmd; Machine::setb(ccw - 8, cmd); }
                    if (i == 0) plans[ccw - 8] = p; op.txt += fmt(" %x:%02x %x f%02x n%d", ccw - 8, prog[ccw - 8].cmd, da, fl, cnt[i]);
                }
                sig = sig * 131 + cmd * 8 + pieces + (rel << 9) + (p.endst << 4);
                
            }
            // what a status modifier skips to when it points behind the program: a no-operation
            for (int i = 0; i < 3; i++) { putccw(0x03, BUF, 0x20, 1); }
            ops.push_back(op);
            uint32_t cw = word(op.caw); as.ss(0xd2, 4, 0x48, 0, cw, 0); as.ss(0xd2, 8, 0x40, 0, ONES, 0); as.rx(0x41, 13, d.addr); { uint32_t sio = as.pc; as.si(0x9c, 0, d.addr & 0xfff); uint32_t ok = as.pc + 16; as.rx(0x47, 13, ok); if (devs.size() > 1) { as.si(0x80, 0, 0x259); as.si(0x80, 0, 0x258); } else { as.rx(0x47, 15, ok); as.rx(0x47, 15, ok); } as.rx(0x47, devs.size() > 1 ? 15 : 0, sio); if (as.pc != ok) abort(); } as.rx(0x45, 14, REC);
            if (r.one_in(3)) { as.rx(0x41, 2, r.range(1, 200)); uint32_t t = as.pc; as.rx(0x46, 2, t); }
        }
        if (mode == 1) { calc = true; as.rx(0x58, 12, word(CALC)); as.rx(0x58, 10, word(WORK)); as.rx(0x41, 11, loops); as.rs(0x98, 0, 9, 0x280); as.si(0x80, 0, 0x259); as.rr(0x07, 15, 12); /* calc returns here */ uint32_t back = as.pc; Machine::setw(0x2b0, back); as.si(0x80, 0, 0x258); }
        if (mode == 2) { uint32_t top = as.pc; for (int w : who) { as.rx(0x41, 13, devs[w]->addr); as.si(0x9d, 0, devs[w]->addr); as.rx(0x45, 14, REC2); } as.rx(0x58, 15, PEND); as.rr(0x12, 15, 15); as.rx(0x47, 2, top); }
        else { as.rx(0x58, 15, PEND); as.rr(0x12, 15, 15); uint32_t wp = (lit + 7) & ~7; lit = wp + 8; uint32_t go = as.pc + 8; as.rx(0x47, 12, go); Machine::setw(wp, 0xff020000); Machine::setw(wp + 4, go); as.si(0x82, 0, wp); }
        pc = as.pc;
    }
    as.pc = pc; as.si(0x80, 0, 0x258); as.rx(0x41, 2, 200); { uint32_t t = as.pc; as.rx(0x46, 2, t); } as.si(0x92, 1, MARK); as.rx(0x47, 15, as.pc);
    if (as.pc > 0xbff || lit > 0xe00) { fprintf(stderr, "code too long\n"); abort(); }
    // calculation
    Ref360 ref; if (calc) { for (int i = 0; i < 10; i++) Machine::setw(0x280 + 4 * i, r.one_in(4) ? r.below(64) : r.u32()); for (uint32_t a = WORK; a < WORK + 0x400; a++) Machine::setb(a, r.below(256));
        gen_calc(r, as, CALC, caln); as.rx(0x58, 12, 0x2b4); as.rs(0x90, 0, 11, 0, 12); as.rx(0x58, 12, 0x2b0); uint32_t end = as.pc; as.rr(0x07, 15, 12); Machine::setw(0x2b4, RES);
        ref.memsize = 65536; ref.has_fp = false; ref.mem.assign(65536, 0); for (uint32_t a = 0; a < 0x10000; a++) ref.mem[a] = Machine::getb(a); memset(ref.skey, 0, sizeof ref.skey); ref.key = 0; ref.amwp = 0; ref.pm = 0; for (int i = 0; i < 10; i++) ref.r[i] = Machine::getw(0x280 + 4 * i); ref.r[10] = WORK; ref.r[11] = loops; ref.r[12] = CALC; ref.ic = CALC;
        for (int n = 0; n < 100000 && ref.ic != end; n++) { ref.step(); if (ref.trap || ref.unpred || ref.dcare_cc || !ref.dcare_mem.empty() || !ref.dcare_reg.empty()) { tally("discarded"); return; } } if (ref.ic != end) { tally("discarded"); return; } tally("calc_programs"); }
    // expectations: rounds are sequential per device and buffers are private, so the order across devices does not matter
    std::vector<std::vector<int>> byd(devs.size());
    for (size_t i = 0; i < ops.size(); i++) { auto &o = ops[i]; VDev &d = *devs[o.dev]; byd[o.dev].push_back(i); expect(d.plans, plans, o.caw, prog, mem, skey, want[o.dev], o.e); }
    // run
    auto dump = [&] { std::string t = "modes " + modes + "; "; for (auto &o : ops) t += o.txt + "; "; return t; };
    if (C().one >= 0 && C().verbose) fprintf(stderr, "%s\n", dump().c_str());
    note("run"); Machine::setw(0, 0x82000008); Machine::setw(4, 0); Machine::setw(8, 0); Machine::setw(12, 0x460); START = 1; mach.cycle(); mach.cycle(); START = 0;
    uint64_t limit = 400000 + (calc ? (uint64_t)caln * loops * 2000 : 0), n = 0; for (auto &d : devs) for (auto &p : d->plans) limit += 3000 + (uint64_t)p.n * (p.gap + 600) + p.de_delay * 2 + p.first;
    while (!Machine::getb(MARK) && n < limit) { mach.cycle(); for (auto &d : devs) d->tick(); step_count++; n++; }
    for (int k = 0; k < 20000; k++) { mach.cycle(); for (auto &d : devs) d->tick(); step_count++; }
    tally("cases_run"); tally("operations", ops.size()); tally("cycles", n); for (auto &d : devs) { tally("bytes_moved", d->bytes); tally("reconnections", d->reconnects); tally("statuses", d->statuses); tally("stacked_statuses", d->stacked); tally("selections", d->selections); }
    seen("histories", sig * 31 + devs.size());
    const char *mn = Machine::name(); bool anyprot = false, anypci = false; for (auto &o : ops) { if (o.e.csmask != 0xff) anyprot = true; if (o.e.pcis) anypci = true; }
#ifndef M2030
    anyprot = false;
#endif
    auto bad = [&](const std::string &k, const std::string &t) { violation(fmt("chan:%s:%s%s", mn, anyprot && k.find("immediate") == std::string::npos ? "protected:" : "", k.c_str()), t + " | " + dump()); };
    // log
    uint32_t lp = Machine::getw(LOGP); std::vector<Rec> log; if (lp < LOG || lp > LOG + 0xff0) { bad("log", fmt("log pointer %x", lp)); return; }
    for (uint32_t a = LOG; a < lp; a += 24) log.push_back(Rec{ Machine::getw(a), Machine::getw(a + 4), Machine::getw(a + 8), Machine::getw(a + 12), Machine::getb(a + 16), 0 });
    std::string lt; for (auto &l : log) lt += fmt(" {%d %08x %08x %08x %08x}", l.type, l.w0, l.w1, l.x, l.who);
    if (!Machine::getb(MARK)) {
        g_broken = true;
        std::string t; for (auto &d : devs) t += fmt(" dev %03x state %d active %d status %02x stacked %d request %d pos %d", d->addr, d->st, d->active, d->status, d->unit.stacked, d->unit.request, d->pos);
        uint32_t pgm = Machine::getw(0x28), mc = Machine::getw(0x30); bad(pgm ? "program-interrupt" : mc ? "machine-check" : "stuck", fmt("program did not end (pending %d, pgm old %08x %08x)", Machine::getw(PEND), pgm, Machine::getw(0x2c)) + t + " log" + lt); return; }
    // statuses per device
    std::vector<size_t> at(devs.size(), 0); std::vector<std::vector<std::vector<Rec>>> ev(devs.size()); 
    for (auto &l : log) {
        uint32_t ad = l.type == 2 ? l.x & 0xffff : l.who; int w = -1; for (size_t i = 0; i < devs.size(); i++) if (devs[i]->addr == ad) w = i; if (w < 0) { bad("address", fmt("interruption from %x", ad) + lt); return; }
        if (l.type == 1) ev[w].push_back({}); if (ev[w].empty()) { bad("early", fmt("interruption from %x before its first operation", ad) + lt); return; } ev[w].back().push_back(l);
    }
    for (size_t w = 0; w < devs.size(); w++) {
        VDev &d = *devs[w]; const char *cht = d.addr < 0x100 ? "mpx" : "sel"; if (ev[w].size() != byd[w].size()) { bad("sio-count", fmt("%zu SIO records for %03x", ev[w].size(), d.addr) + lt); return; }
        uint8_t prevcs = 0;
        for (size_t k = 0; k < byd[w].size(); k++) {
            auto &o = ops[byd[w][k]]; auto &e = o.e; auto &v = ev[w][k]; int cc = v[0].x >> 28 & 3; auto no = [&](const char *key, const std::string &t) { bad(fmt("%s:%s", cht, key), t + fmt(" [device %03x operation %zu: expected cc %d unit %02x chan %02x ca %x count %d pci %d]", d.addr, k, e.cc, e.us, e.cs, e.ca, e.count, e.pcis) + " log" + lt); };
            if (cc != e.cc) { no("cc", fmt("condition code %d", cc)); return; }
            uint8_t us = 0, cs = 0; bool main_seen = false; int npci = 0, nev = 0;
            for (size_t j = 0; j < v.size(); j++) {
                auto &l = v[j]; uint8_t u = l.w1 >> 24, c = l.w1 >> 16;
                if (l.type == 1) { if (cc == 0) { if (l.w0 != 0xffffffff || l.w1 != 0xffffffff) { no("csw-stored", fmt("CSW %08x %08x stored with condition code 0", l.w0, l.w1)); return; } continue; }
                    if (l.w0 != 0xffffffff || (l.w1 & 0xffff) != 0xffff) { no("csw-part", fmt("SIO stored more than the status: %08x %08x", l.w0, l.w1)); return; }
                    us |= u; cs |= c & 0x7f; if (e.immediate && (c & 0x7f)) { no("immediate", fmt("channel status %02x", c)); return; } main_seen = true; nev++; continue; }
                uint8_t stale = (u & 8) ? 0 : u == 0 && (c & 0x80) ? c & prevcs & 0x7f : c & prevcs & ~e.cs & 0x7f; if (stale) { violation(fmt("chan:%s:%s:stale-status", mn, cht), fmt("CSW %08x %08x without channel end repeats channel status of the operation before", l.w0, l.w1) + fmt(" [device %03x operation %zu]", d.addr, k) + " log" + lt + " | " + dump()); if (stale & 0x3f) return; /* the guest took it for the end */ c &= ~stale; }
                if ((c & 0x80) && e.pcis == 0 && u == 0 && (us & 0x0c) == 8 && cc == 0) { no("pci-after-channel-end", "program-controlled interruption not asked for between channel end and device end"); return; }
                if (c & 0x80) { npci++; tally("pci_seen"); }
                if (us & u & 0x0c) { no("twice", fmt("status %02x reported again", u)); return; }
                us |= u; cs |= c & 0x7f; nev++; bool main = (u & 8) || (c & 0x3f);
                if (main && main_seen) { no("second-end", fmt("second ending CSW %08x %08x", l.w0, l.w1)); return; }
                if (main || (c & 0x80)) {
                    if (l.w0 >> 28 != e.key || (l.w0 & 0x0f000000)) { no("key", fmt("CSW %08x %08x: key", l.w0, l.w1)); return; }
                    uint32_t ca = l.w0 & 0xffffff;
                    if (main) { if (ca != e.ca) { no("ccw-address", fmt("CSW %08x %08x: address", l.w0, l.w1)); return; } if (e.ck_count && (int)(l.w1 & 0xffff) != e.count) { no(e.last_imm ? "immediate-count" : c & 0x80 ? "pci-count" : "count", fmt("CSW %08x %08x: count", l.w0, l.w1)); return; } main_seen = true; }
                }
            }
            if (e.ck_us ? (us & (e.ce_opt ? ~8 : 0xff)) != (e.us & (e.ce_opt ? ~8 : 0xff)) : (us & ~0x0c & ~e.us) != 0) { no("unit-status", fmt("unit status %02x", us)); return; }
            if ((cs & e.csmask) != (e.cs & e.csmask)) { no(e.last_imm ? "immediate-channel-status" : "channel-status", fmt("channel status %02x", cs)); return; }
            if ((npci > 0) != (e.pcis > 0) && cc == 0) { no(npci && anypci && devs.size() > 1 ? "pci-of-other" : "pci", fmt("%d program-controlled interruptions", npci)); return; }
            prevcs |= (e.cs | ~e.csmask) & 0x7f;
            tally(fmt("%s_operations", cht)); seen("outcomes", (uint64_t)e.us << 24 | e.cs << 16 | (cht[0] == 'm') << 8 | nev << 4 | e.cc); if (e.cs & 0x40) tally("incorrect_length"); if (e.cs & 0x10) tally("protection"); if (e.cs & 0x20) tally("program_checks"); if (e.pcis) tally("pci_operations");
        }
        // what the device saw
        if (d.parity) { bad("bus-parity", fmt("%d bytes with bad parity to %03x", (int)d.parity, d.addr)); return; }
        if (d.unplanned || d.recs.size() != want[w].size()) { bad(fmt("%s:commands", cht), fmt("device %03x saw %zu commands, expected %zu", d.addr, d.recs.size(), want[w].size()) + lt); return; }
        for (size_t k = 0; k < d.recs.size(); k++) { auto &g = d.recs[k], &x = want[w][k]; if (g.cmd != x.cmd) { bad(fmt("%s:command", cht), fmt("command %zu of %03x: %02x expected %02x", k, d.addr, g.cmd, x.cmd)); return; }
            if (g.got != x.got) { size_t i = 0; while (i < g.got.size() && i < x.got.size() && g.got[i] == x.got[i]) i++; bad(fmt("%s:output", cht), fmt("command %zu of %03x (%02x): device got %zu bytes, expected %zu, differ at %zu (%02x, %02x)", k, d.addr, g.cmd, g.got.size(), x.got.size(), i, i < g.got.size() ? g.got[i] : 0, i < x.got.size() ? x.got[i] : 0) + lt); return; } }
        if (d.active || d.unit.stacked || d.unit.request) { bad(fmt("%s:left", cht), fmt("device %03x still active %d stacked %d request %d status %02x", d.addr, d.active, d.unit.stacked, d.unit.request, d.status) + lt); return; }
    }
    for (auto &m : mem) if (Machine::getb(m.first) != m.second || !Machine::parity_ok(m.first)) { bad("input", fmt("storage %x is %02x, expected %02x", m.first, Machine::getb(m.first), m.second) + lt); return; }
    for (auto &c : prog) if (Machine::getb(c.first) != c.second.cmd) { bad("ccw-changed", fmt("CCW at %x changed", c.first)); return; }
    if (calc) { for (int i = 0; i < 12; i++) if (Machine::getw(RES + 4 * i) != ref.r[i]) { bad("calc-reg", fmt("register %d is %08x, expected %08x after %d x %d instructions interleaved with I/O", i, Machine::getw(RES + 4 * i), ref.r[i], caln, loops)); return; } for (uint32_t a = WORK; a < WORK + 0x400; a++) if (Machine::getb(a) != ref.mem[a]) { bad("calc-mem", fmt("storage %x is %02x, expected %02x", a, Machine::getb(a), ref.mem[a])); return; } tally("calc_checked"); }
    if (ci % 499 == 0) sample(dump() + " log" + lt);
}
int main(int argc, char **argv) {
    log_level = 0; init(argc, argv); if (getenv("CPU_TRACE")) { log_init((char *)getenv("CPU_TRACE")); log_enable = 1; log_level = LOG_MICRO | LOG_REG | LOG_MEM | LOG_DEVICE | LOG_TRACE; }
    for (auto &a : C().args) if (a.rfind("off=", 0) == 0) g_off = a.substr(4);
    Machine::configure('F'); g_mem = mem_max + 1;
    cases(body, 60);
    return finish();
}
