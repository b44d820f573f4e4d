// A System/360 channel in software: drives the devices attached to chan[ch] over the real bus functions,
// following the channel to control unit interface (initial selection, polling, data, ending status,
// stacking, command chaining, stop), as a multiplexor channel (select out dropped once the device answers)
// or as a selector channel (select out held until the ending status).
// Every protocol error of a device is reported through err().
#pragma once
#include "vh.hpp"
#include <functional>
#include <array>
extern "C" {
#include "device.h"
#include "event.h"
#include "xlat.h"
}
namespace sw {
struct Ccw { uint8_t cmd; int count; bool cc; std::vector<uint8_t> out; int tic = -1; }; // tic: place in the program a transfer in channel goes to
struct Res { uint8_t cmd = 0; size_t pc = 0; int init = -1; std::vector<uint8_t> in; int taken = 0; bool stopped = false; std::vector<int> st; int ended = 0; /* all status bits after the initial one */ };
struct Sub { uint8_t addr = 0; bool active = false, working = false, chend = false, next = false; std::vector<Ccw> prog; size_t pc = 0; std::vector<Res> res; };
struct Channel {
    int ch = 0; bool sel = false, stack_chained = true, stack_cue = true, bad_command = false; // bad_command: the next command byte goes out with wrong parity
    uint16_t tags = CHAN_OPR_OUT, in = 0, bo = 0x100, bi = 0x100; int stack_pct = 0, slow_max = 0; vh::Rng *rng = nullptr;
    std::function<void()> tick; std::function<void(const char *, const std::string &)> err; std::vector<Sub> subs; std::vector<std::pair<int, int>> async; // status of devices with no operation
    bool broken = false; uint64_t steps = 0, dlog = 0; std::string why;
    void fail(const char *k, const std::string &d) { broken = true; why = k; if (err) err(k, d + vh::fmt(" (tags %04x bus in %03x bus out %03x)", in, bi, bo)); }
    void step() {
        in = (in & IN_TAGS) | tags;
        for (device_t *d = chan[ch]; d; d = d->next) d->bus_func(d, &in, bo, &bi);
        if (vh::C().verbose && getenv("SWTRACE")) fprintf(stderr, "%6llu tags %04x in %02x bo %03x bi %03x\n", (unsigned long long)steps, tags, in & 0xff, bo, bi);
        steps++; advance(); if (tick) tick();
    }
    void idle(int n) { while (n-- > 0) step(); }
    template <class P> bool until(P p, const char *what, int limit = 4000) { for (int i = 0; i < limit; i++) { if (p()) return true; step(); } if (!broken) fail("no-answer", std::string("waiting for ") + what); return false; }
    bool up(uint16_t t) const { return (in & t) == t; } bool down(uint16_t t) const { return (in & t) == 0; }
    static uint16_t par(uint8_t b) { return b | odd_parity[b]; }
    bool ckpar(const char *what) { if (bi != par(bi & 0xff)) { fail("parity", std::string(what) + " with wrong parity"); return false; } return true; }
    void pause() { if (slow_max && rng) idle(rng->below(slow_max + 1)); }
    Sub *find(uint8_t a) { for (auto &s : subs) if (s.addr == a && s.active) return &s; return nullptr; }
    // drops everything and waits for the interface to be free
    bool release() { tags = CHAN_OPR_OUT; bo = 0x100; return until([&] { return down(CHAN_OPR_IN | CHAN_ADR_IN | CHAN_STA_IN | CHAN_SRV_IN); }, "the device to leave the interface") && (idle(3), true); }
    // Initial selection.  Returns 3 nobody answered, 2 busy (quick), 0 initial status in st, -1 broken.
    int select(uint8_t addr, uint8_t cmd, int &st, bool keep, bool stack = false, bool cc = false) {
        tags = (tags & CHAN_SUP_OUT) | CHAN_OPR_OUT; idle(3); bo = par(addr); tags |= CHAN_ADR_OUT; step();
        tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; step();
        for (int i = 0;; i++) {
            if (down(CHAN_OPR_IN | CHAN_STA_IN) && (in & CHAN_SEL_IN)) { tags = CHAN_OPR_OUT; step(); step(); return 3; }
            if (up(CHAN_STA_IN) && down(CHAN_OPR_IN)) { if (!ckpar("busy status")) return -1; st = bi & 0xff; tags = CHAN_OPR_OUT | CHAN_ADR_OUT; tags &= ~CHAN_ADR_OUT; if (!until([&] { return down(CHAN_STA_IN); }, "status in to fall after busy")) return -1; bo = 0x100; idle(3); return 2; }
            if (up(CHAN_OPR_IN)) tags &= ~CHAN_ADR_OUT;
            if (up(CHAN_OPR_IN | CHAN_ADR_IN)) break;
            if (i > 20000) { fail("no-answer", "initial selection"); return -1; }
            step();
        }
        if (bi != par(addr)) { fail("address", vh::fmt("device %02x answered with %03x", addr, bi)); return -1; }
        tags &= ~CHAN_SUP_OUT; if (!sel) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        pause(); int cb = par(cmd) ^ (bad_command ? 0x100 : 0); bad_command = false; bo = cb; tags |= CHAN_CMD_OUT; if (!until([&] { return down(CHAN_ADR_IN); }, "address in to fall", 20000)) return -1;
        tags &= ~CHAN_CMD_OUT; bo = cb; if (!until([&] { return up(CHAN_STA_IN); }, "initial status", 20000)) return -1;
        if (!up(CHAN_OPR_IN)) { fail("protocol", "status in without operational in"); return -1; }
        if (!ckpar("initial status")) return -1; st = bi & 0xff; pause(); if ((bi & 0xff) != st) { fail("bus-changed", "initial status changed while status in was up"); return -1; }
        if (stack) { tags |= CHAN_CMD_OUT; bo = 0x100; } else { if (cc && (st & SNS_DEVEND) && !(st & 0xb3)) tags |= CHAN_SUP_OUT; tags |= CHAN_SRV_OUT; }
        if (!until([&] { return down(CHAN_STA_IN); }, "status in to fall")) return -1;
        tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT); bo = 0x100;
        if (tags & CHAN_SUP_OUT) { tags = CHAN_OPR_OUT | CHAN_SUP_OUT; return until([&] { return down(CHAN_OPR_IN | CHAN_STA_IN | CHAN_ADR_IN); }, "the device to leave the interface for chaining") ? 0 : -1; }
        if (!keep || (st & 0xb3) || stack) return release() ? 0 : -1;
        return 0;
    }
    void next_pc(Sub &s, int st) { s.pc++; if (st & SNS_SMS) s.pc++; if (s.pc < s.prog.size() && s.prog[s.pc].tic >= 0) s.pc = s.prog[s.pc].tic; }
    // Handles an ending status of an operation or of a device without one. 'accepted' is false when stacked.
    bool take_status(uint8_t addr, Sub *s) {
        if (!ckpar("ending status")) return false; int st = bi & 0xff; pause(); if ((bi & 0xff) != st || down(CHAN_STA_IN)) { fail("bus-changed", "ending status changed while status in was up"); return false; }
        bool stk = rng && stack_pct && (stack_cue || st != SNS_CTLEND) && (stack_chained || !s || !s->prog[s->pc].cc) && rng->chance(stack_pct);
        if (stk) { vh::tally("statuses_stacked"); tags |= CHAN_CMD_OUT; bo = 0x100; if (!until([&] { return down(CHAN_STA_IN); }, "status in to fall after stacking")) return false; return release(); }
        bool chain = s && s->prog[s->pc].cc && !(st & 0xb3); if (chain) tags |= CHAN_SUP_OUT;
        tags |= CHAN_SRV_OUT; if (!until([&] { return down(CHAN_STA_IN); }, "status in to fall")) return false; tags &= ~CHAN_SRV_OUT; bo = 0x100; vh::tally("statuses");
        if (!s || !s->working) { async.push_back({ addr, st }); return release(); }
        Res &r = s->res.back(); r.st.push_back(st); r.ended |= st; if (st & SNS_CHNEND) s->chend = true;
        if (st & SNS_DEVEND) { bool ch = chain; s->working = false; if (ch) { next_pc(*s, st); if (s->pc >= s->prog.size()) ch = false; } s->next = ch; s->active = ch;
            if (!ch) return release(); // suppress out stays up until the device is selected again
            tags = CHAN_OPR_OUT | CHAN_SUP_OUT; return until([&] { return down(CHAN_OPR_IN | CHAN_STA_IN | CHAN_ADR_IN); }, "the device to leave the interface for chaining") && (idle(3), true); }
        tags &= ~CHAN_SUP_OUT; if (!chain || !sel) { tags = CHAN_OPR_OUT; }
        if (st & 0xb3 & ~(SNS_UNITCHK | SNS_UNITEXP)) { }
        return true;
    }
    // Device on the interface: transfers data until it leaves.
    bool connected(uint8_t addr, Sub *s) {
        for (int quiet = 0; quiet < 400000; quiet++) {
            if (down(CHAN_OPR_IN)) { if (!down(CHAN_STA_IN | CHAN_SRV_IN | CHAN_ADR_IN)) { step(); if (!down(CHAN_STA_IN | CHAN_SRV_IN | CHAN_ADR_IN)) { fail("protocol", "in tag without operational in"); return false; } } tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); return true; }
            if (up(CHAN_SRV_IN | CHAN_STA_IN)) { fail("protocol", "service in and status in together"); return false; }
            if (up(CHAN_SRV_IN)) {
                quiet = 0; if (!s || !s->working || s->chend) { fail("data-unexpected", "service in without a data operation"); return false; }
                Ccw &c = s->prog[s->pc]; Res &r = s->res.back(); pause(); bool wr = c.cmd & 1;
                if (r.taken >= c.count) { r.stopped = true; tags |= CHAN_CMD_OUT; bo = 0x100; vh::tally("stops"); }
                else { if (wr) { bo = par(c.out[r.taken]); } else { if (!ckpar("data")) return false; r.in.push_back(bi & 0xff); bo = 0x100; } r.taken++; tags |= CHAN_SRV_OUT; vh::tally("bytes"); }
                if (!until([&] { return down(CHAN_SRV_IN); }, "service in to fall")) return false;
                tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT); continue;
            }
            if (up(CHAN_STA_IN)) { quiet = 0; if (!take_status(addr, s)) return false; if (s && s->next) return true; if (!s || !s->working) return true; continue; }
            step();
        }
        fail("stuck", "the device stays on the interface without doing anything"); return false;
    }
    // Starts one CCW of a subchannel.  Returns as select().
    int begin(Sub &s) {
        Ccw &c = s.prog[s.pc]; s.res.push_back(Res()); Res &r = s.res.back(); r.cmd = c.cmd; r.pc = s.pc; s.chend = false; s.next = false; int st = 0;
        int rc = select(s.addr, c.cmd, st, true, false, c.cc); if (rc < 0) return rc; r.init = rc == 0 ? st : rc == 2 ? 0x200 | st : 0x300;
        if (rc != 0) { s.active = s.working = false; return rc; }
        if (st & 0xb3) { s.active = s.working = false; if ((st & SNS_CHNEND) && !(st & SNS_DEVEND)) { /* device end comes later */ } return 0; }
        s.working = c.cmd != 0; if (c.cmd == 0) { s.active = false; release(); return 0; }
        r.ended |= st; if (st & SNS_CHNEND) s.chend = true;
        if (st & SNS_DEVEND) { s.working = false; if (c.cc) next_pc(s, st); if (c.cc && s.pc < s.prog.size()) s.next = true; else { s.active = false; tags &= ~CHAN_SUP_OUT; }
            if (!s.next && !release()) return -1; return 0; }
        if (s.chend && !(c.cc && sel)) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        if (!connected(s.addr, &s)) return -1; return 0;
    }
    int start(uint8_t addr, const std::vector<Ccw> &prog) {
        subs.erase(std::remove_if(subs.begin(), subs.end(), [&](const Sub &x) { return x.addr == addr; }), subs.end());
        Sub s; s.addr = addr; s.active = true; s.prog = prog; subs.push_back(s); vh::tally("programs"); return begin(subs.back());
    }
    Sub *last(uint8_t a) { for (auto &s : subs) if (s.addr == a) return &s; return nullptr; }
    // One turn of the channel: chained command, poll, or a step.
    bool turn() {
        for (auto &s : subs) if (s.active && s.next) { int act = 0; for (auto &x : subs) act += x.active; idle(3 + (rng && act == 1 ? rng->below(20) : 0)); vh::tally("chained"); return begin(s) >= 0; }
        if (up(CHAN_REQ_IN) && down(CHAN_OPR_IN)) {
            tags = CHAN_OPR_OUT; bo = 0x100; idle(3); tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; step();
            for (int i = 0; i < 20000; i++) {
                if (down(CHAN_OPR_IN) && (in & CHAN_SEL_IN)) { tags = CHAN_OPR_OUT; step(); step(); vh::tally("empty_polls"); if (++empty > 200) { fail("request", "request in stays up but nobody answers the poll"); return false; } return true; }
                if (up(CHAN_OPR_IN | CHAN_ADR_IN)) break; step();
            }
            if (!up(CHAN_OPR_IN | CHAN_ADR_IN)) { fail("no-answer", "poll"); return false; }
            empty = 0; if (!ckpar("address")) return false; uint8_t a = bi & 0xff; vh::tally("reconnections"); if (!sel) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
            pause(); bo = 0x100; tags |= CHAN_CMD_OUT; if (!until([&] { return down(CHAN_ADR_IN); }, "address in to fall")) return false; tags &= ~CHAN_CMD_OUT;
            return connected(a, find(a));
        }
        polled(); empty = 0; step(); return true;
    }
    int empty = 0; uint64_t lastpoll = 0; uint64_t maxgap = 0; void polled() { maxgap = std::max(maxgap, steps - lastpoll); lastpoll = steps; } // longest time in which a request was up
    // Runs until the operation of 'addr' is over or the limit is reached.
    bool finish(uint8_t addr, uint64_t limit = 2000000) { uint64_t e = steps + limit; while (!broken && steps < e) { Sub *s = find(addr); if (!s) return true; if (!turn()) return false; } if (!broken) { fail("lost", vh::fmt("operation on %02x does not end", addr)); } return false; }
    bool run(uint64_t n) { uint64_t e = steps + n; while (!broken && steps < e) if (!turn()) return false; return !broken; }
    int tio(uint8_t addr, int &st) { return select(addr, 0, st, false); }
    void reset() { tags = 0; idle(3); tags = CHAN_OPR_OUT; idle(2); in = 0; broken = false; subs.clear(); async.clear(); }
};
}
