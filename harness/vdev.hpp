// A scriptable I/O device for the standard channel interface: a control unit that follows the tag protocol the way
// the simulator's own devices do, and does for each command what the script of the case says.
#pragma once
#include <vector>
#include <string>
extern "C" {
#include "device.h"
#include "xlat.h"
}
struct VPlan {
    uint8_t cmd = 0;            // command the plan was made for
    uint8_t init = 0;           // initial status (0: command accepted, CE.. : immediate)
    int n = 0;                  // bytes the device has or wants
    bool ce_first = false;      // channel end first, device end de_delay ticks later
    int de_delay = 100;
    uint8_t endst = 0;          // unit check / exception / status modifier, with device end
    int first = 20, gap = 20;   // ticks before the first byte, between bytes
    int burst = 0;              // bytes per connection on a multiplexor channel (0: stay connected)
    std::vector<uint8_t> data;  // bytes to send
};
struct VRec { uint8_t cmd; std::vector<uint8_t> got; int sent; bool stopped; };
struct VDev {
    struct _device unit;
    uint16_t addr;
    std::vector<VPlan> plans; size_t next = 0;
    std::vector<VRec> recs;
    VPlan cur; device_state_t st = STATE_IDLE;
    bool active = false, busy = false, want = false, ended = false, done = false, polled = false, drop = false;
    int pos = 0, delay = 0, left = 0; uint8_t status = 0, data = 0;
    uint64_t selections = 0, reconnects = 0, bytes = 0, statuses = 0, stacked = 0, halts = 0, busies = 0, parity = 0, unplanned = 0;
    uint64_t work = 0;
    explicit VDev(uint16_t a) : addr(a) { memset(&unit, 0, sizeof unit); unit.bus_func = &VDev::bus; unit.dev = this; unit.addr = a; }
    static void bus(struct _device *u, uint16_t *tags, uint16_t out, uint16_t *in) { ((VDev *)u->dev)->step(tags, out, in); }
    static uint16_t par(uint8_t b) { return b | odd_parity[b]; }
    void reset() { unit.selected = unit.request = unit.stacked = 0; st = STATE_IDLE; active = busy = want = ended = done = false; status = 0; }
    void fin() { status |= SNS_DEVEND | cur.endst; done = true; busy = false; }
    void chend() { ended = true; want = false; status |= SNS_CHNEND; if (cur.ce_first) delay = cur.de_delay; else fin(); }
    // device mechanics, once per tick
    void tick() {
        if (want || done || !active || (st != STATE_IDLE && st != STATE_OPR && st != STATE_WAIT_DEVEND)) return;
        if (delay > 0) { delay--; return; }
        if (ended) { if (st == STATE_OPR || ((status & SNS_CHNEND) && !unit.stacked)) return; fin(); unit.request = 1; return; }
        if (pos >= cur.n) { chend(); unit.request = 1; return; }
        data = (cur.cmd & 1) ? 0 : pos < (int)cur.data.size() ? cur.data[pos] : 0; want = true; delay = cur.gap; unit.request = 1;
    }
    void command(uint8_t c) {
        if (c == 0) { status = 0; return; }                                   // test I/O
        if (next >= plans.size()) { unplanned++; VPlan p; p.init = SNS_CHNEND | SNS_DEVEND; cur = p; } else cur = plans[next++];
        cur.cmd = c; recs.push_back(VRec{ c, {}, 0, false });
        active = busy = true; want = ended = done = false; pos = 0; unit.stacked = 0; delay = cur.first; left = cur.burst; status = cur.init;
        if (cur.init & SNS_DEVEND) { ended = done = true; busy = false; }
        else if (cur.init & SNS_CHNEND) { ended = true; delay = cur.de_delay; }
        else if ((cur.cmd & 1) && cur.n > 0) want = false;
    }
    // interface disconnect in the middle of a transfer: leave the interface, present ending status later
    bool disconnect(uint16_t *tags) {
        if ((*tags & CHAN_ADR_OUT) == 0 || (*tags & CHAN_HLD_OUT)) return false;
        *tags &= ~(CHAN_OPR_IN | CHAN_SRV_IN); halts++; unit.selected = 0; recs.back().stopped = true; if (!ended) chend(); unit.request = 1; st = STATE_IDLE; return true;
    }
    void over(uint16_t *tags) { *tags &= ~CHAN_OPR_IN; unit.stacked = 0; active = busy = want = ended = done = false; st = STATE_STATUS_WAIT; statuses++; }
    void step(uint16_t *tags, uint16_t out, uint16_t *in) {
        if ((*tags & (CHAN_OPR_OUT | CHAN_SUP_OUT)) == 0) { if (unit.selected) *tags &= ~(CHAN_OPR_IN | CHAN_ADR_IN | CHAN_SRV_IN | CHAN_STA_IN); reset(); return; }
        switch (st) {
        case STATE_IDLE:
            drop = false;
            if ((*tags & CHAN_OPR_OUT) == 0) break;
            if (*tags & CHAN_OPR_IN) { if (unit.request || unit.stacked) *tags &= ~CHAN_REQ_IN; break; }
            if (unit.request || unit.stacked) { if ((*tags & (CHAN_SUP_OUT | CHAN_ADR_OUT)) == 0) *tags |= CHAN_REQ_IN; else *tags &= ~CHAN_REQ_IN; }
            if (*tags & CHAN_SEL_OUT) {
                if (*tags & CHAN_ADR_OUT) {
                    if ((out & 0xff) != (addr & 0xff)) break;
                    *tags &= ~(CHAN_SEL_OUT | CHAN_REQ_IN); if (par(out & 0xff) != (out & 0x1ff)) parity++;
                    if (busy) { *in = par(SNS_BSY); *tags |= CHAN_STA_IN; st = STATE_BUSY; busies++; break; }
                    *tags |= CHAN_OPR_IN; *in = par(addr & 0xff); st = STATE_INIT_SEL; unit.selected = 1; polled = false; selections++;
                } else if ((*tags & CHAN_SUP_OUT) == 0 && (unit.request || unit.stacked)) {
                    *tags &= ~(CHAN_SEL_OUT | CHAN_REQ_IN); *tags |= CHAN_OPR_IN; *in = par(addr & 0xff); unit.selected = 1; st = STATE_INIT_SEL; polled = true; reconnects++;
                }
            }
            break;
        case STATE_INIT_SEL:
            *tags &= ~CHAN_SEL_OUT; *in = par(addr & 0xff);
            if ((*tags & CHAN_ADR_OUT) == 0) { *tags |= CHAN_ADR_IN; st = STATE_COMMAND; }
            break;
        case STATE_COMMAND:
            *tags &= ~CHAN_SEL_OUT; unit.request = 0; *in = par(addr & 0xff);
            if (*tags & CHAN_CMD_OUT) {
                *tags &= ~CHAN_ADR_IN; if (par(out & 0xff) != (out & 0x1ff)) parity++;
                if (polled) { if (!ended) st = STATE_DATA_1; else st = STATE_STATUS; break; }
                st = STATE_STATUS;
                if (!unit.stacked && status == 0) command(out & 0xff);
                break;
            }
            if ((*tags & CHAN_ADR_OUT) && (*tags & CHAN_HLD_OUT) == 0) {
                *tags &= ~(CHAN_ADR_IN | CHAN_OPR_IN); halts++; if (!ended) { ended = true; want = false; status |= SNS_CHNEND; } st = STATE_STATUS_WAIT;
            }
            break;
        case STATE_STATUS:
            *tags &= ~(CHAN_SEL_OUT | CHAN_ADR_IN); *in = par(status); *tags |= CHAN_STA_IN; st = STATE_STATUS_ACCEPT; break;
        case STATE_STATUS_ACCEPT:
            *tags &= ~CHAN_SEL_OUT; *in = par(status);
            if (*tags & CHAN_CMD_OUT) { unit.stacked = 1; stacked++; st = STATE_STATUS_WAIT; *tags &= ~(CHAN_OPR_IN | CHAN_STA_IN); break; }
            if (*tags & CHAN_SRV_OUT) {
                status = 0; *tags &= ~CHAN_STA_IN; statuses++; unit.stacked = 0;
                if (done || !active) { over(tags); break; }
                if (ended) { if ((*tags & CHAN_HLD_OUT) == 0) *tags &= ~CHAN_OPR_IN; st = STATE_STATUS_WAIT; break; }
                if (cur.burst != 0 && !want) drop = true;
                st = STATE_OPR; break;
            }
            if (*tags & CHAN_ADR_OUT) { st = STATE_IDLE; *tags &= ~(CHAN_OPR_IN | CHAN_STA_IN); }
            break;
        case STATE_STATUS_WAIT:
            *tags &= ~CHAN_SEL_OUT;
            if ((*tags & (CHAN_CMD_OUT | CHAN_SRV_OUT | CHAN_ADR_OUT)) == 0) {
                if ((*tags & CHAN_HLD_OUT) == 0 || !busy) { unit.selected = 0; *tags &= ~CHAN_OPR_IN; st = STATE_IDLE; } else st = STATE_WAIT_DEVEND;
            }
            break;
        case STATE_BUSY:
            *in = par(SNS_BSY);
            if ((*tags & CHAN_SEL_OUT) == 0) {
                *tags &= ~(CHAN_SEL_OUT | CHAN_STA_IN); unit.selected = 0; st = STATE_IDLE;
                if (*tags & CHAN_ADR_OUT) { halts++; if (!ended) { chend(); unit.request = 1; } }
            }
            *tags &= ~CHAN_SEL_OUT;
            break;
        case STATE_END_STATUS:
            *tags &= ~CHAN_SEL_OUT;
            if (*tags & (CHAN_CMD_OUT | CHAN_SRV_OUT)) break;
            *in = par(status); *tags |= CHAN_STA_IN; st = STATE_END_ACCEPT; break;
        case STATE_END_ACCEPT:
            *tags &= ~CHAN_SEL_OUT; *in = par(status);
            if ((*tags & CHAN_ADR_OUT) && (*tags & CHAN_HLD_OUT) == 0) { *tags &= ~(CHAN_OPR_IN | CHAN_STA_IN); halts++; unit.selected = 0; unit.request = 1; st = STATE_IDLE; break; }
            if (*tags & CHAN_CMD_OUT) { unit.stacked = 1; stacked++; st = STATE_STATUS_WAIT; *tags &= ~(CHAN_STA_IN | CHAN_OPR_IN); break; }
            if (*tags & CHAN_SRV_OUT) {
                status = 0; statuses++; unit.stacked = 0; *tags &= ~(CHAN_STA_IN | CHAN_OPR_IN);
                if (done) { over(tags); break; }
                st = STATE_STATUS_WAIT;
            }
            break;
        case STATE_WAIT_DEVEND:
            *tags &= ~CHAN_SEL_OUT; if (done) { unit.request = 0; st = STATE_STATUS; } break;
        case STATE_OPR:
            unit.request = 0; *tags &= ~CHAN_SEL_OUT;
            if (*tags & CHAN_ADR_OUT) {        // halt
                halts++; *tags &= ~CHAN_OPR_IN; unit.selected = 0; if (!ended) chend(); else want = false; st = STATE_IDLE; unit.request = 1; break;
            }
            if (want) { st = STATE_DATA_1; break; }
            if (ended || done) { st = STATE_END_STATUS; break; }
            if (drop) { drop = false; if ((*tags & CHAN_HLD_OUT) == 0) { *tags &= ~CHAN_OPR_IN; unit.selected = 0; st = STATE_IDLE; } }
            break;
        case STATE_DATA_1:
            *tags &= ~CHAN_SEL_OUT; if (disconnect(tags)) break; if (*tags & CHAN_SRV_OUT) break; if (*tags & CHAN_SUP_OUT) break;
            *tags |= CHAN_SRV_IN; *in = par(data); st = STATE_DATA_2; break;
        case STATE_DATA_2:
            *tags &= ~CHAN_SEL_OUT; *in = par(data); if (disconnect(tags)) break;
            if (*tags & (CHAN_SRV_OUT | CHAN_CMD_OUT)) {
                *tags &= ~CHAN_SRV_IN; want = false; st = STATE_OPR;
                if (*tags & CHAN_CMD_OUT) { recs.back().stopped = true; chend(); }
                else {
                    bytes++; pos++; delay = cur.gap;
                    if (cur.cmd & 1) { if (par(out & 0xff) != (out & 0x1ff)) parity++; recs.back().got.push_back(out & 0xff); } else recs.back().sent++;
                    if (cur.burst) { if (--left <= 0) { left = cur.burst; drop = true; } }
                }
            }
            break;
        }
    }
};
