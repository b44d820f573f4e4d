// The operator's panel: storage keys, start and stop, set IC, the interrupt key, the interval timer and
// initial program loading, on the real machines; against the System/360 reference and a list of what was done.
#include "vh.hpp"
#include "machine.hpp"
#include "stubs.hpp"
#include "vdev.hpp"
#include "ref360.hpp"
#include <memory>
#include <functional>
using namespace vh;
static Machine m;
static uint32_t g_mem = 65536; static bool g_broken = false;
static const uint32_t PROG = 0x400, DATA = 0xa00, LOG = 0x4000, SAVE = 0x3c0, LOGP = 0x3b0, HAND = 0x900, ENDH = 0x980, REGS = 0x340, FLAG = 0x39c, FREE = 0x6000;
#ifdef M2050
static bool stopped() { return cpu_2050.allow_man_operation; }
static void keys(uint32_t a, uint32_t d) { cpu_2050.AKEYS = a; cpu_2050.DKEYS = d; }
static void timer_switch(bool on) { INT_TMR = !on; }
static const int TLO = 0x600, THI = 0x600, LOOP = 40, WORD = 4;
static void unit(int a) { A_SW = a >> 8 & 15; B_SW = a >> 4 & 15; C_SW = a & 15; }
static bool loading() { return cpu_2050.load_mode; }
#else
static bool stopped() { return cpu_2030.allow_man_operation; }
static void keys(uint32_t a, uint32_t d) { A_SW = a >> 12 & 15; B_SW = a >> 8 & 15; C_SW = a >> 4 & 15; D_SW = a & 15; H_SW = d >> 4 & 15; J_SW = d & 15; }
static void timer_switch(bool on) { INT_TMR = on; }
static const int TLO = 0x600, THI = 0x700, LOOP = 160, WORD = 1;
static void unit(int a) { G_SW = a >> 8 & 15; H_SW = a >> 4 & 15; J_SW = a & 15; }
static bool loading() { return cpu_2030.load_mode; }
#endif
struct Asm {
    uint32_t pc;
    void h(uint16_t v) { Machine::setb(pc, v >> 8); Machine::setb(pc + 1, v); pc += 2; }
    void rx(uint8_t op, int r, uint32_t d, int b = 0, int x = 0) { h(op << 8 | r << 4 | x); h(b << 12 | (d & 0xfff)); }
    void rr(uint8_t op, int a, int b) { h(op << 8 | a << 4 | b); }
    void rs(uint8_t op, int a, int c, uint32_t d, int b = 0) { h(op << 8 | a << 4 | c); h(b << 12 | (d & 0xfff)); }
    void si(uint8_t op, uint8_t i, uint32_t d, int b = 0) { h(op << 8 | i); h(b << 12 | (d & 0xfff)); }
    void ss(uint8_t op, int l, uint32_t d1, int b1, uint32_t d2, int b2) { h(op << 8 | (l - 1)); h(b1 << 12 | (d1 & 0xfff)); h(b2 << 12 | (d2 & 0xfff)); }
};
// A straight piece of program over registers 1 to 9 and the data area.
static int gen(Rng &r, Asm &as, int n, bool masks) {
    for (int i = 0; i < n; i++) {
        int a = r.range(1, 9), b = r.range(1, 9), d = DATA + 4 * r.below(32), e = DATA + r.below(128);
        if (masks && r.one_in(9)) { as.si(0x80, 0, 0x3a0 + r.below(4)); continue; }          // SSM: bytes 3a0..3a1 masked, 3a2..3a3 enabled
        switch (r.below(9)) {
        case 0: case 1: as.rr(r.pick<uint8_t>({ 0x1a, 0x1b, 0x18, 0x14, 0x16, 0x17, 0x19, 0x12, 0x13, 0x10, 0x11, 0x1e, 0x1f, 0x15 }), a, b); break;
        case 2: case 3: as.rx(r.pick<uint8_t>({ 0x5a, 0x5b, 0x58, 0x54, 0x56, 0x57, 0x59, 0x5e, 0x5f, 0x55 }), a, d); break;
        case 4: as.rx(0x50, a, d); break;
        case 5: as.rx(r.pick<uint8_t>({ 0x48, 0x4a, 0x4b, 0x49, 0x40 }), a, d + 2 * r.below(2)); break;
        case 6: as.si(r.pick<uint8_t>({ 0x92, 0x94, 0x96, 0x97, 0x95, 0x91 }), r.below(256), e); break;
        case 7: as.ss(r.pick<uint8_t>({ 0xd2, 0xd5, 0xd7, 0xd4, 0xd6 }), r.range(1, 12), e, 0, DATA + r.below(128), 0); break;
        case 8: if (r.one_in(2)) { as.rx(0x47, r.below(16), as.pc + 8); as.rx(0x41, a, r.below(4096), b); } else as.rs(r.pick<uint8_t>({ 0x88, 0x89, 0x8a, 0x8b }), a, 0, r.below(40)); break;
        }
    }
    return n;
}
static std::string g_hist, g_quirk; static bool g_bad;
static void bad(const char *k, const std::string &d) { g_bad = true; violation(std::string("oper:") + Machine::name() + ":" + (g_quirk.empty() ? k : g_quirk.c_str()), d + " after" + g_hist); }
static bool until(uint64_t n, std::function<bool()> f) { while (n--) { if (f()) return true; m.cycle(); } return f(); }

static void panel(uint64_t ci, Rng &r) {
    for (int i = 0; i < 8; i++) chan[i] = nullptr;
    note("reset"); g_quirk.clear();
    m.reset();
#ifdef M2050
    cpu_2050.AMWP = 0; cpu_2050.wait = 0;     // system reset may leave the wait state of the case before
#endif
    g_hist.clear(); g_bad = false; uint64_t sig = 0;
    std::vector<uint8_t> want(g_mem);
    for (uint32_t a = 0; a < g_mem; a++) { want[a] = a < 0x400 || (a >= LOG && a < LOG + 0x1000) ? 0 : r.below(256); Machine::setb(a, want[a]); }
    for (uint32_t b = 0; b < g_mem >> 11; b++) Machine::setkey(b, 0);
    auto skeep = [&](uint32_t a, uint32_t v) { Machine::setw(a, v); };
    for (int i = 0; i < 4; i++) Machine::setb(0x3a0 + i, i < 2 ? 0x00 : 0x01);
    int32_t tv = r.one_in(3) ? (int32_t)r.below(0x6000) : r.one_in(2) ? (int32_t)(r.next() & 0x7fffffff) : -(int32_t)(r.below(0x40000000)); skeep(0x50, tv);
    skeep(LOGP, LOG); skeep(0x58, 0); skeep(0x5c, HAND); skeep(0x68, 0x00020000); skeep(0x6c, 0xbad);
    Asm as; as.pc = HAND; as.rx(0x50, 15, SAVE); as.rx(0x58, 15, LOGP); as.ss(0xd2, 8, 0, 15, 0x18, 0); as.rx(0x50, 10, 8, 15); as.rx(0x41, 15, 12, 15); as.rx(0x50, 15, LOGP); as.rx(0x58, 15, SAVE); as.si(0x82, 0, 0x18);
    skeep(FLAG, 0); skeep(FLAG - 4, 0x5a5aa5a5); as.pc = ENDH; as.rs(0x90, 0, 15, REGS); as.ss(0xd2, 4, FLAG, 0, FLAG - 4, 0); as.si(0x82, 0, 0x68);
    as.pc = PROG; bool masks = r.one_in(2); as.si(0x80, 0, 0x3a2); uint32_t top = as.pc; gen(r, as, r.range(4, 25), masks); as.si(0x80, 0, 0x3a2); as.rx(0x41, 10, 1, 10); as.rx(0x47, 15, top);
    int n = (as.pc - PROG) / 4 + 4; uint64_t loop = (uint64_t)n * LOOP * 2;
    skeep(0, 0x82000008); skeep(4, 0); skeep(8, 0); skeep(12, PROG);
    Ref360 ref; ref.memsize = g_mem; ref.has_fp = false; ref.mem.resize(g_mem); memset(ref.skey, 0, sizeof ref.skey);
    // storage as the operator sees it, before anything runs
    int pre = r.below(4); bool tmr = r.one_in(3) ? false : true; timer_switch(tmr);
    auto store = [&](uint32_t a) {
        uint32_t v = r.next(); if (WORD == 1) v &= 0xff; keys(WORD == 4 ? a + r.below(4) : a, v);
#ifdef M2050
        E_SW = 1;
#else
        E_SW = 0x20;
#endif
        g_hist += fmt(" store %x", a); STORE = 1; m.run(250); STORE = 0; m.run(120);
        for (int i = 0; i < WORD; i++) { uint8_t w = v >> (8 * (WORD - 1 - i)); want[a + i] = w; if (Machine::getb(a + i) != w || !Machine::parity_ok(a + i)) { bad("store", fmt("location %x holds %02x, wanted %02x", a + i, Machine::getb(a + i), w)); return; } }
        tally("stores"); };
    auto display = [&](uint32_t a) {
        keys(WORD == 4 ? a + r.below(4) : a, r.next());
#ifdef M2050
        E_SW = 1; g_hist += fmt(" display %x", a); DISPLAY = 1; m.run(250); uint32_t g = cpu_2050.SDR_REG; DISPLAY = 0; m.run(120); uint32_t w = Machine::getw(a);
#else
        E_SW = 0x20; g_hist += fmt(" display %x", a); DISPLAY = 1; m.cycle(); uint32_t g = cpu_2030.R_REG; DISPLAY = 0; m.run(120); uint32_t w = Machine::getb(a) | odd_parity[Machine::getb(a)];
#endif
        if (g != w) bad("display", fmt("location %x shows %x, holds %x", a, g, w)); tally("displays"); };
    auto other = [&]() { return WORD == 4 ? FREE + 4 * (uint32_t)r.below((g_mem - FREE) / 4) : FREE + (uint32_t)r.below(g_mem - FREE); };
    for (int i = 0; i < pre && !g_bad; i++) { uint32_t a = other(); if (r.one_in(2)) store(a); else display(a); if (r.one_in(2)) display(a); }
    for (uint32_t a = 0; a < g_mem; a++) ref.mem[a] = Machine::getb(a);
    ref.ic = PROG; ref.sysmask = 0; ref.key = 0; ref.amwp = 0; ref.cc = 0;
    uint32_t gpr0[16]; bool setr15 = false; uint32_t r15 = 0;
    note("start");
#ifdef M2050
    // the registers are loaded from the panel or left as system reset leaves them
    E_SW = 0; for (int i = 0; i < 16 && !g_bad; i++) { keys((0x30 + i) << 4, gpr0[i] = r.next()); STORE = 1; m.run(250); STORE = 0; m.run(120); tally("register_stores"); }
    for (int i = 0; i < 16 && !g_bad; i++) if (r.one_in(6)) { keys((0x30 + i) << 4, r.next()); DISPLAY = 1; m.run(250); DISPLAY = 0; m.run(120); uint32_t g = cpu_2050.L_REG; if (g != gpr0[i]) bad("display-register", fmt("register %d shows %08x, was stored %08x", i, g, gpr0[i])); tally("register_displays"); }
    for (int i = 0; i < 16; i++) ref.r[i] = gpr0[i];
    E_SW = 1;
    bool ic = r.one_in(2);
    if (ic) { for (int i = 0; i < 4; i++) ref.mem[i] = 0; Machine::setw(0x3f0, 0x82000008); for (int i = 0; i < 4; i++) ref.mem[0x3f0 + i] = Machine::getb(0x3f0 + i); skeep(0, 0); keys(0x3f0, r.next()); g_hist += " set-ic"; SET_IC = 1; m.run(300); SET_IC = 0; m.run(200); tally("set_ics"); }
    if (!stopped()) bad("stopped", "the machine is not in the stopped state before START");
    START = 1; m.run(2); START = 0; if (!ic && 0) { }
#else
    // registers through a load multiple at the start
    for (int i = 0; i < 16; i++) { gpr0[i] = r.next(); Machine::setw(0x380 - 0x80 + 4 * i, gpr0[i]); for (int k = 0; k < 4; k++) ref.mem[0x380 - 0x80 + 4 * i + k] = gpr0[i] >> (24 - 8 * k); ref.r[i] = gpr0[i]; }
    as.pc = 0x3e8; as.rs(0x98, 0, 15, 0x300); as.rx(0x47, 15, PROG); Machine::setw(12, 0x3e8); for (uint32_t a = 0x3e8; a < 0x3f0; a++) ref.mem[a] = Machine::getb(a); ref.mem[14] = 3; ref.mem[15] = 0xe8;
    START = 1; m.run(2); START = 0;
#endif
    int nk = 0, npulse = 0; bool stop_now = false; int nev = r.range(3, 14);
    m.run(LOOP * 30);
    for (int i = 0; i < nev && !g_bad; i++) {
        m.run(r.below(loop)); note(g_hist);
        switch (r.below(5)) {
        case 0: g_hist += " key"; sig = sig * 31 + 1; INTR = 1; nk++; m.run(loop * 2); tally("interrupt_keys"); break;
        case 1: case 2: g_hist += " tick"; sig = sig * 31 + 2; if (tmr) npulse++; timer_event = 1; m.run(loop * 2); if (timer_event) bad("tick", "the clock pulse is still waiting"); tally("timer_ticks"); break;
        case 3: { g_hist += " key+tick"; sig = sig * 31 + 3; INTR = 1; nk++; if (r.one_in(2)) m.run(r.below(200)); timer_event = 1; if (tmr) npulse++; m.run(loop * 2); tally("interrupt_keys"); tally("timer_ticks"); break; }
        case 4:
#ifdef M2050
            { g_hist += " stop"; sig = sig * 31 + 4; STOP = 1; m.run(2); STOP = 0; if (!until(4000, stopped)) { bad("stop", "the machine does not stop"); break; } m.run(600);
              std::vector<uint32_t> w(M, M + g_mem / 4); m.run(r.range(50, 3000)); if (!stopped() || memcmp(M, w.data(), g_mem)) { bad("stop", "a stopped machine changes storage"); break; } tally("stops");
              for (int k = r.below(4); k > 0 && !g_bad; k--) { uint32_t a = other(); if (r.one_in(2)) { store(a); for (int i = 0; i < 4; i++) ref.mem[a + i] = want[a + i]; } else display(r.one_in(2) ? a : DATA + 4 * r.below(32)); }
              if (r.one_in(4)) { E_SW = 0; r15 = r.next(); keys(0x3f << 4, r15); STORE = 1; m.run(250); STORE = 0; m.run(120); setr15 = true; E_SW = 1; g_hist += " store-r15"; }
              if (r.one_in(4)) { g_hist += " key-while-stopped"; INTR = 1; nk++; m.run(300); tally("interrupt_keys"); }
              if (r.one_in(4)) { g_hist += " tick-while-stopped"; timer_event = 1; m.run(300); }
              m.run(r.below(300)); g_hist += " start"; START = 1; m.run(2); START = 0; m.run(loop * 2); break; }
#else
            m.run(loop); break;
#endif
        }
    }
    if (!g_bad) {   // the last key takes the program to the end routine
        note(g_hist + " end"); Machine::setw(0x5c, ENDH); INTR = 1; nk++;
        bool done = until(loop * 4 + 20000, [&] {
            return Machine::getw(FLAG) == 0x5a5aa5a5;
        });
        m.run(1500);
        if (!done) { bad("hang", "the interrupt key does not take the program to its end"); g_broken = true; }
    }
    if (!g_bad) {
        // every interruption against the reference
        uint32_t p = Machine::getw(LOGP); int cnt = (p - LOG) / 12, gk = 0, gt = 0; struct E { uint32_t w0, w1, c; }; std::vector<E> es; if (p < LOG || p > LOG + 0xff0) cnt = 0;
        for (int i = 0; i < cnt; i++) { uint32_t a = LOG + 12 * i; es.push_back({ Machine::getw(a), Machine::getw(a + 4), Machine::getw(a + 8) }); }
        es.push_back({ Machine::getw(0x18), Machine::getw(0x1c), Machine::getw(REGS + 40) });
        uint64_t steps = 0, lim = 400000;
        for (size_t i = 0; i < es.size() && !g_bad; i++) {
            E &e = es[i]; int code = e.w0 & 0xffff; if (code & 0x40) gk++; if (code & 0x80) gt++;
            if (!(code & 0xc0) || (code & ~0xc0)) { bad("code", fmt("external interruption %zu with code %04x", i, code)); break; }
            while (steps < lim && !(ref.ic == (e.w1 & 0xffffff) && ref.r[10] == e.c)) { ref.step(); steps++; if (ref.trap) { bad("trap", "the reference program trapped"); break; } }
            if (g_bad) break;
            if (steps >= lim) { bad("place", fmt("interruption %zu: old PSW %08x %08x with counter %x is nowhere on the path of the program", i, e.w0, e.w1, e.c)); break; }
            uint8_t mask = e.w0 >> 24; if (mask != ref.sysmask || !(mask & 1)) { bad("mask", fmt("interruption %zu came with system mask %02x, the program has %02x", i, mask, ref.sysmask)); break; }
            if ((e.w0 >> 16 & 0xff) || ((e.w1 >> 24) & 0x3f) != (ref.cc << 4 | ref.pm)) { bad("psw", fmt("interruption %zu: old PSW %08x %08x, wanted condition code %d", i, e.w0, e.w1, ref.cc)); break; }
            tally("interruptions");
        }
        if (!g_bad && gk != nk) bad("keys", fmt("%d interrupt key interruptions for %d keys", gk, nk));
        int32_t now = Machine::getw(0x50); int64_t d = (int64_t)tv - now; tally("timer_steps", npulse);
        if (!g_bad && (uint32_t)(tv - now) < (uint32_t)npulse * TLO || (uint32_t)(tv - now) > (uint32_t)npulse * THI) bad("timer", fmt("the timer went from %08x to %08x in %d ticks", tv, now, npulse));
        int cross = tv >= 0 && now < 0; (void)d; if (!g_bad && gt != cross) bad("timer-interruption", fmt("%d timer interruptions, timer from %08x to %08x", gt, tv, now)); if (cross) tally("timer_crossings");
        for (int i = 0; i < 16 && !g_bad; i++) { uint32_t w = i == 15 && setr15 ? r15 : ref.r[i], g = Machine::getw(REGS + 4 * i); if (g != w) bad("registers", fmt("register %d is %08x, wanted %08x", i, g, w)); }
        for (uint32_t a = 0; a < g_mem && !g_bad; a++) {
            if ((a >= 0x18 && a < 0x20) || (a >= 0x50 && a < 0x54) || (a >= 0x5c && a < 0x60) || (a >= LOGP && a < LOGP + 4) || (a >= SAVE && a < SAVE + 4) || (a >= REGS && a < REGS + 64) || (a >= FLAG && a < FLAG + 4) || (a >= LOG && a < LOG + 0x1000)) continue;
            if (Machine::getb(a) != ref.mem[a] || !Machine::parity_ok(a)) bad("storage", fmt("location %x is %02x, wanted %02x", a, Machine::getb(a), ref.mem[a]));
        }
        tally("instructions", steps); tally("histories_compared");
    }
    seen("histories", hash_str(g_hist)); if (ci % 37 == 0) sample(g_hist);
}

static void ipl(uint64_t ci, Rng &r) {
    for (int i = 0; i < 8; i++) chan[i] = nullptr;
#ifdef M2030
    cpu_2030.MPX_TAGS &= 0xff00; cpu_2030.SEL_TAGS[0] &= 0xff00; cpu_2030.SEL_TAGS[1] &= 0xff00; int nch = 3;
#else
    cpu_2050.MPX_TAGS &= 0xff00; for (int i = 0; i < 4; i++) { cpu_2050.TAGS[i] &= 0xff00; cpu_2050.TAGS_IN[i] &= 0xff00; } int nch = 4;
#endif
    g_hist.clear(); g_bad = false; g_quirk.clear(); note("reset");
    std::vector<std::unique_ptr<VDev>> devs; int nd = r.range(1, 3); std::set<int> used;
    for (int i = 0; i < nd; i++) { int c = r.below(nch); int ad = c == 0 ? r.range(0x0a, 0x1e) : r.below(256); if (!used.insert(c << 8 | ad).second || (c && used.count(0x1000 | c))) continue; devs.emplace_back(new VDev(c << 8 | ad)); struct _device **q = &chan[c]; while (*q) q = &(*q)->next; *q = &devs.back()->unit; }
    m.reset(); VDev &d = *devs[0]; uint64_t sig = d.addr;
    // an earlier life of the machine: storage, keys and registers hold anything
    for (uint32_t a = 0; a < g_mem; a++) Machine::setb(a, r.below(256));
    for (uint32_t b = 0; b < g_mem >> 11; b++) Machine::setkey(b, r.one_in(3) ? r.below(16) : 0);
    std::vector<uint8_t> want(g_mem); for (uint32_t a = 0; a < g_mem; a++) want[a] = Machine::getb(a);
    // what will be on the device: PSW and two CCWs, the rest of the channel program, the program
    int rounds = r.one_in(6) ? 2 : 1; unit(d.addr); bool failing = rounds == 2;
    auto put = [&](std::vector<uint8_t> &v, uint32_t w) { for (int k = 0; k < 4; k++) v.push_back(w >> (24 - 8 * k)); };
    bool shorts = r.one_in(40);
    auto plan = [&](const std::vector<uint8_t> &v, int n) { VPlan p; p.cmd = 2; p.n = n; p.data = v; p.first = r.pick<int>({ 5, 50, 300 }); p.gap = r.pick<int>({ 10, 20, 60 }); if (d.addr < 0x100) p.burst = r.pick<int>({ 0, 1, 3 }); p.ce_first = d.addr < 0x100 && r.one_in(4); p.de_delay = r.pick<int>({ 50, 600 }); d.plans.push_back(p); };
    if (failing) {      // the first try ends with unit check: no PSW may be loaded
        std::vector<uint8_t> v; put(v, 0x00000000); put(v, 0xbad0); for (int i = 0; i < 4; i++) put(v, 0); plan(v, d.addr < 0x100 ? r.range(4, 24) : 24); d.plans.back().endst = SNS_UNITCHK; for (int i = 0; i < d.plans.back().n; i++) want[i] = v[i];
        g_hist += fmt(" [%03x unit check after %d bytes]", d.addr, d.plans.back().n);
        int want_n = d.plans.back().n; LOAD = 1; m.cycle(); LOAD = 0; note("first load"); for (int i = 0; i < 8000; i++) { d.tick(); m.run(10); }
        if (!loading()) bad("unit-check", "load state left after an unsuccessful load");
        if (d.recs.size() != 1) bad("unit-check", fmt("%zu commands", d.recs.size())); d.recs.clear(); tally("unit_checks"); { for (uint32_t a = 0; a < g_mem; a++) if (Machine::getb(a) != want[a] && !(a < 4) && !(a < 8 && want_n < 8)) { bad("unit-check", fmt("location %x is %02x, wanted %02x", a, Machine::getb(a), want[a])); break; } if (r.one_in(2)) { note("reset after"); g_hist += " reset"; m.reset(); d.reset(); } }
    }
    uint32_t base = 0x1000, code = base + 8 * r.below(64); Asm as;
    // program at `code`, assembled in storage first and then taken out again
    std::vector<uint8_t> keep(want.begin() + code, want.begin() + code + 512); as.pc = code; as.rr(0x05, 12, 0); uint32_t b12 = code + 2;
    std::vector<uint8_t> prog; { uint32_t end; for (int i = 0; i < 10; i++) as.rr(0x17, i, i); int k = r.range(1, 12); for (int i = 0; i < k; i++) { int a = r.range(0, 9); switch (r.below(4)) { case 0: as.rx(0x41, a, r.below(4096), 12); break; case 1: as.rr(0x1e, a, r.range(0, 9)); break; case 2: as.rr(0x17, a, r.range(0, 9)); break; default: as.rs(0x89, a, 0, r.below(32)); } }
      as.rs(0x90, 0, 12, 0x200); as.ss(0xd2, 4, 0x240, 0, 0x244, 0); as.si(0x82, 0, 0x68); end = as.pc; for (uint32_t a = code; a < end; a++) prog.push_back(Machine::getb(a)); for (size_t i = 0; i < keep.size(); i++) Machine::setb(code + i, keep[i]); }
    uint32_t pswhi = (r.one_in(2) ? 0 : 0x00000000) | r.below(1) , pm = r.below(16), cc = r.below(4); uint32_t pswlo = cc << 28 | pm << 24 | code; 
    std::vector<uint8_t> v; put(v, pswhi | (r.one_in(2) ? 0xffff : 0)); put(v, pswlo);
    // the program comes in pieces; one of the two CCWs may read further CCWs
    bool indirect = r.one_in(2); std::vector<std::pair<uint32_t, int>> pieces; { int left = prog.size(), n = indirect ? r.range(1, 4) : 1; uint32_t a = code; for (int i = 0; i < n && left > 0; i++) { int c = i == n - 1 ? left : r.range(1, left); pieces.push_back({ a, c }); a += c; left -= c; } }
    struct C { uint32_t w0, w1; }; std::vector<C> ccws; auto recs = std::vector<std::pair<std::vector<uint8_t>, int>>();
    auto slice = [&](uint32_t a, int n) { return std::vector<uint8_t>(prog.begin() + (a - code), prog.begin() + (a - code) + n); };
    for (size_t i = 0; i < pieces.size(); i++) { bool last = i + 1 == pieces.size(); auto s = slice(pieces[i].first, pieces[i].second); int extra = r.one_in(3) ? r.range(1, 30) : 0, shortby = 0; uint8_t fl = (last ? 0 : 0x40); int count = pieces[i].second; int dn = count; if (extra) { fl |= 0x20; bool chained = WORD == 1 && d.addr >= 0x100 && !last; if (chained ? !shorts : r.one_in(2)) { for (int k = 0; k < extra; k++) s.push_back(r.below(256)); dn += extra; } else { count += extra; shortby = extra; if (chained) g_quirk = "load-short-record"; } } (void)shortby; ccws.push_back({ 0x02000000 | pieces[i].first, (uint32_t)fl << 24 | count }); recs.push_back({ s, dn }); }
    auto apply = [&](uint32_t a, const std::vector<uint8_t> &s, int n) { for (int i = 0; i < n; i++) want[a + i] = s[i]; };
    uint32_t ct = 0x800 + 8 * r.below(16); 
    if (indirect) {
        std::vector<uint8_t> t; for (auto &c : ccws) { put(t, c.w0); put(t, c.w1); }
        put(v, 0x02000000 | ct); put(v, 0x40000000 | t.size()); put(v, 0x08000000 | ct); put(v, r.next()); apply(0, v, 24); 
        plan(v, 24); plan(t, t.size()); apply(ct, t, t.size());
    } else { put(v, ccws[0].w0); put(v, ccws[0].w1); put(v, r.next()); put(v, r.next()); apply(0, v, 24); plan(v, 24); }
    if (r.one_in(3)) { VPlan &p = d.plans[failing]; for (int i = r.range(1, 60); i > 0; i--) { p.data.push_back(r.below(256)); p.n++; } }  // the first record may be longer than 24
    for (size_t i = 0; i < recs.size(); i++) { plan(recs[i].first, recs[i].second); apply(pieces[i].first, recs[i].first, pieces[i].second); }
    want[2] = d.addr >> 8; want[3] = d.addr;
    g_hist += fmt(" load %03x, %zu records%s, program of %zu bytes at %x", d.addr, recs.size() + 1 + indirect, indirect ? ", CCWs read in" : "", prog.size(), code);
    for (int i = 0; i < 8; i++) { static const uint8_t w[8] = { 0, 2, 0, 0, 0, 0, 0x0b, 0xad }; want[0x68 + i] = w[i]; Machine::setb(0x68 + i, w[i]); uint8_t f = i < 4 ? 0 : 0x5a5aa5a5u >> (24 - 8 * (i - 4)); want[0x240 + i] = f; Machine::setb(0x240 + i, f); }
    note(g_hist); LOAD = 1; m.cycle(); LOAD = 0;
    bool done = false; uint64_t lim = 800000; while (lim && !done) { for (auto &q : devs) q->tick(); for (int i = 0; i < 10 && !done; i++) { m.cycle(); lim--;
        done = Machine::getw(0x240) == 0x5a5aa5a5;
    } if (lim < 10) break; }
    tally("loads"); tally(fmt("channel_%d", d.addr >> 8));
    if (!done) bad("hang", fmt("the program loaded does not run to its end (%zu commands, %llu bytes)", d.recs.size(), (unsigned long long)d.bytes));
    else {
        m.run(1500); if (loading()) bad("load-state", "load state is still on after a complete load");
        Ref360 ref; ref.memsize = g_mem; ref.has_fp = false; ref.mem = want; memset(ref.skey, 0, sizeof ref.skey); ref.load_psw(0);
        for (int i = 0; i < 16; i++) ref.r[i] = 0;
        for (int n = 0; n < 60 && ref.ic != 0xbad; n++) ref.step();
        for (uint32_t a = 0; a < g_mem && !g_bad; a++) { if (a >= 0x228 && a < 0x230) continue; if (a >= 0x38 && a < 0x40) continue; if (Machine::getb(a) != ref.mem[a] || !Machine::parity_ok(a)) bad("storage", fmt("location %x is %02x, wanted %02x", a, Machine::getb(a), ref.mem[a])); }
        uint32_t g12 = Machine::getw(0x230); if (!g_bad && g12 != (0x40000000u | cc << 28 | pm << 24 | b12)) bad("psw", fmt("register 12 is %08x, wanted %08x", g12, 0x40000000u | cc << 28 | pm << 24 | b12));
        size_t nc = recs.size() + 1 + indirect; if (!g_bad && d.recs.size() != nc) bad("commands", fmt("%zu commands, wanted %zu", d.recs.size(), nc));
        for (auto &q : d.recs) if (q.cmd != 2 && !g_bad) bad("commands", fmt("command %02x", q.cmd));
        for (size_t i = 1; i < devs.size(); i++) if (devs[i]->recs.size()) bad("other-unit", fmt("unit %03x was started", devs[i]->addr));
        tally("bytes_loaded", d.bytes); tally("loads_compared");
    }
    seen("histories", sig * 1000003 + hash_str(g_hist)); if (ci % 37 == 0) sample(g_hist);
}
int main(int argc, char **argv) {
    log_level = 0; init(argc, argv);
    Machine::configure('F'); g_mem = mem_max + 1;
    cases([&](uint64_t ci, Rng &r) { if (g_broken) { tally("skipped_after_hang"); return; } if (C().mode == "ipl") ipl(ci, r); else panel(ci, r); tally("cycles", m.cycles); m.cycles = 0; });
    return finish();
}
