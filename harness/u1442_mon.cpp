// The 1442 card reader punch at its channel interface: random decks, operator actions and channel programs
// against a model of the card path (hopper, read station, punch station, two stackers), its status and sense.
#include "swchan.hpp"
#include "ebcdic.hpp"
extern "C" {
#include "card.h"
#include "xlat.h"
#include "logger.h"
#include "model1442.h"
uint64_t step_count;
struct card_context *init_card_context(); int read_card(struct card_context *, uint16_t (*)[80]); int read_deck(struct card_context *, char *);
void empty_cards(struct card_context *); int stack_card(struct card_context *, uint16_t (*)[80]);
void model1442_draw(struct _device *, void *, int) { } void *model1442_control(struct _device *, int, int, int) { return 0; }
void model1442_init_graphics(struct _device *, void *) { } int model1442_create(struct _option *) { return 1; }
}
using namespace vh; using namespace sw;
typedef std::vector<uint16_t> Card;
enum { CMDREJ = 0x80, INTERV = 0x40, BUSCHK = 0x20, DATCHK = 0x08, OVRRUN = 0x04 };
static int ebc[4096];
struct Model {
    std::vector<Card> hop; size_t hp = 0; bool rd = false, pu = false, rdy = false, eof = false; Card rc, pc; int pcol = 0, stk = 0, sense = 0; std::vector<Card> st[2];
    int left() { return (int)(hop.size() - hp); }
    void feed() {
        if (left() == 0 && !eof) { sense |= INTERV; rdy = false; return; }
        if (pu) { st[stk].push_back(pc); pu = false; pcol = 0; }
        if (rd) { pc = rc; pu = true; rd = false; }
        if (left()) { rc = hop[hp++]; rd = true; } rdy = rd; if (left() == 0 && !eof) rdy = false;
        if (rdy) sense &= ~INTERV; else sense |= INTERV;
    }
    int endfeed() { // after an operation; returns device end status
        if (left() == 0 && eof) { eof = false; feed(); return SNS_DEVEND | SNS_UNITEXP; } feed(); return SNS_DEVEND | (sense ? SNS_UNITCHK : 0);
    }
};
struct Want { int init; std::vector<uint8_t> in; int taken; int ended; bool overrun = false; };
struct Unit { device_t *d; _1442_context *x; Model m; uint8_t addr; };
static std::string show(const Card &c) { std::string s; for (int i = 0; i < 80; i++) s += fmt("%03x ", c[i]); return s; }
static Card rndcard(Rng &r) { Card c(80, 0); int k = r.below(4); for (int i = 0; i < 80; i++) c[i] = k == 0 ? golden_punch(r.below(256)) : k == 1 ? golden_punch(0xc1 + r.below(9)) : k == 2 && r.one_in(3) ? golden_punch(0xf0 + r.below(10)) : k == 3 && r.one_in(20) ? r.below(4096) : golden_punch(r.below(256)); return c; }
static std::string hist;
// What a command must do; updates the model.
static Want expect(Model &m, const Ccw &c) {
    Want w; w.init = 0; w.taken = 0; w.ended = 0; uint8_t cmd = c.cmd; auto imm = [&](int s) { w.init = s; w.ended = s; };
    switch (cmd & 7) {
    case 0: w.init = m.sense ? SNS_UNITCHK : 0; break;
    case 1: m.sense &= INTERV; if (cmd & 0x5c) { m.sense |= CMDREJ; imm(0x0e); break; } m.stk = (cmd >> 5) & 1;
        if (!m.pu) { imm(0x0c | (m.sense ? 2 : 0)); break; }
        w.taken = c.count; for (int i = 0; i < c.count && m.pcol < 80; i++) m.pc[m.pcol++] |= golden_punch(c.out[i]);
        w.ended = SNS_CHNEND; if (cmd & 0x80) w.ended |= m.endfeed(); else w.ended |= SNS_DEVEND | (m.sense ? SNS_UNITCHK : 0); break;
    case 2: m.sense &= INTERV; if (cmd & 0xdc) { m.sense |= CMDREJ; imm(0x0e); break; } m.stk = (cmd >> 5) & 1;
        if (!m.rdy) { m.sense |= INTERV; imm(0x0e); break; }
        // the column after the last one the channel takes has been sensed already
        for (int i = 0; i < 80 && i < c.count + 1; i++) { int e = ebc[m.rc[i]]; if (i < c.count) w.in.push_back(e < 0 ? 0 : e); if (e < 0) m.sense |= DATCHK; }
        w.taken = std::min(c.count, 80); w.ended = SNS_CHNEND; w.ended |= m.endfeed(); break;
    case 3: m.sense &= INTERV; if (cmd & 0x5c) { m.sense |= CMDREJ; imm(0x0e); break; } m.stk = (cmd >> 5) & 1;
        if (!(cmd & 0x80)) { imm(0x0c); break; }
        if (!m.rdy) { m.sense |= INTERV; imm(0x0e); break; }
        w.init = SNS_CHNEND; w.ended = SNS_CHNEND | m.endfeed(); break;
    case 4: if (cmd != 4) { m.sense |= CMDREJ; imm(0x0e); break; } w.in.push_back(m.sense); w.taken = 1; w.ended = 0x0c; break;
    default: m.sense |= CMDREJ; imm(0x0e);
    }
    return w;
}
static bool bad(const char *k, const std::string &d) { violation(fmt("1442:%s", k), d + " after" + hist.substr(hist.size() > 1200 ? hist.size() - 1200 : 0)); return false; }
static void unit(uint64_t ci, Rng &r) {
    init_event(); for (int i = 0; i < 8; i++) chan[i] = nullptr; hist.clear();
    Channel c; c.rng = &r; c.ch = r.below(3); c.sel = r.one_in(3); c.stack_pct = r.one_in(3) ? 30 : 0; c.slow_max = r.one_in(2) ? 0 : r.range(1, 3);
    c.err = [&](const char *k, const std::string &d) { bad(fmt("interface:%s", k).c_str(), d); };
    int nu = c.sel ? 1 : r.one_in(3) ? 2 : 1; if (nu > 1 && c.stack_pct) c.slow_max = 0; // two units, stacking and a slow channel together may overrun
    std::vector<Unit> us; std::set<int> used;
    for (int i = 0; i < nu; i++) { uint8_t a; do a = r.below(256); while (used.count(a)); used.insert(a); Unit u; u.addr = a; u.d = model1442_init(c.ch << 8 | a); u.x = (_1442_context *)u.d->dev; us.push_back(u); }
    c.reset(); uint64_t sig = c.sel; hist += fmt(" [%s, %d units, stack %d]", c.sel ? "selector" : "multiplexor", nu, c.stack_pct);
    auto check = [&](Unit &u) { // card path compared with the model
        for (int s = 0; s < 2; s++) { int n = stack_size(u.x->stack[s]); if (n != (int)u.m.st[s].size()) return bad("stacker-count", fmt("unit %02x stacker %d holds %d cards, wanted %zu", u.addr, s, n, u.m.st[s].size()));
            if (n && r.one_in(3)) { for (int i = 0; i < n; i++) { uint16_t im[80]; if (!read_card(u.x->stack[s], &im)) return bad("stacker-read", "card gone"); tally("cards_stacked"); Card g(im, im + 80); if (g != u.m.st[s][i]) return bad("stacked-card", fmt("unit %02x stacker %d card %d: ", u.addr, s, i) + show(g) + " wanted " + show(u.m.st[s][i])); } empty_cards(u.x->stack[s]); u.m.st[s].clear(); } }
        if (hopper_size(u.x->feed) != u.m.left()) return bad("hopper-count", fmt("unit %02x hopper holds %d cards, wanted %d", u.addr, hopper_size(u.x->feed), u.m.left())); return true; };
    int nops = r.range(4, 25);
    for (int k = 0; k < nops && !c.broken; k++) {
        Unit &u = us[r.below(nu)]; Model &m = u.m; int op = r.below(20);
        if (op < 3 || (m.left() == 0 && !m.rdy && r.chance(60))) { // the operator
            int n = r.one_in(8) ? 0 : r.range(1, 8); std::string s; std::vector<Card> nw; for (int i = 0; i < n; i++) { Card x = rndcard(r); nw.push_back(x); for (int j = 0; j < 80; j++) { s += (char)((x[j] & 0xf) << 4); s += (char)(x[j] >> 4); } }
            std::string fn = C().scratch + "/in.deck"; FILE *f = fopen(fn.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); u.x->feed->mode = MODE_BIN; if (n) { read_deck(u.x->feed, (char *)fn.c_str()); m.hop.erase(m.hop.begin(), m.hop.begin() + m.hp); m.hp = 0; m.hop.insert(m.hop.end(), nw.begin(), nw.end()); }
            bool e = r.one_in(3); u.x->eof_flag = e; m.eof = e; u.x->hop_cnt = hopper_size(u.x->feed); hist += fmt(" %02x:load%d%s", u.addr, n, e ? "+eof" : ""); tally("cards_loaded", n);
            if (!m.rdy || r.one_in(6)) { if (!m.rd || r.one_in(2)) { model1442_feed(u.x); m.feed(); hist += "+feed"; } } // start or NPRO key
            sig = sig * 31 + 1 + e; if (!check(u)) break; continue;
        }
        if (op == 3) { int st = 0; uint8_t a; do a = r.below(256); while (used.count(a)); int rc = c.select(a, 2, st, false); tally("absent_units"); if (rc != 3) { bad("absent", fmt("address %02x is nobody's but Start I/O got %d", a, rc)); break; } continue; }
        if (op == 4) { int st = 0; int rc = c.tio(u.addr, st); int want = m.sense ? 2 : 0; hist += fmt(" %02x:tio", u.addr); tally("test_ios"); if (rc != 0 || st != want) { bad("test-io", fmt("Test I/O got %d status %02x, wanted %02x", rc, st, want)); break; } continue; }
        if (op == 5) { int st = 0; uint8_t cmd = r.pick<uint8_t>({ 1, 2, 3, 4, 0x81, 0x83, 0x22 }); c.bad_command = true; int rc = c.select(u.addr, cmd, st, false); hist += fmt(" %02x:badparity%02x", u.addr, cmd); sig = sig * 31 + 7; if (c.broken) break; m.sense |= BUSCHK; tally("bad_parity"); if (rc != 0 || st != 0x0e) { bad("bus-out-check", fmt("command %02x with wrong parity gave Start I/O %d status %02x", cmd, rc, st)); break; } if (!check(u)) break; continue; }
        if (op == 6 && r.one_in(2)) { hist += " reset"; sig = sig * 31 + 8; c.reset(); for (auto &v : us) v.m.sense = 0; tally("resets"); continue; }
        // one or (sometimes) both units work at the same time
        std::vector<std::pair<Unit *, std::vector<Want>>> jobs; c.polled(); c.maxgap = 0;
        for (auto &v : us) { if (&v != &u && !r.one_in(2)) continue; std::vector<Ccw> p; std::vector<Want> w; int n = r.one_in(2) ? 1 : r.range(2, 4);
            for (int i = 0; i < n; i++) { Ccw x; x.cc = i < n - 1; int t = r.below(12); x.cmd = t < 4 ? 0x02 | (r.below(2) << 5) : t < 8 ? 0x01 | (r.below(2) << 5) | (r.below(2) << 7) : t == 8 ? 0x83 | (r.below(2) << 5) : t == 9 ? 0x03 | (r.below(2) << 5) : t == 10 ? 4 : r.below(255) + 1;
                if ((x.cmd & 7) == 0 || (x.cmd & 15) == 8) x.cmd = 4; // the channel sends no such commands
                x.count = (x.cmd == 4) ? 1 : r.one_in(3) ? 80 : r.one_in(5) ? r.range(81, 120) : r.range(1, 79); for (int j = 0; j < x.count; j++) x.out.push_back(r.one_in(3) ? 0xc0 + r.below(64) : r.below(256)); p.push_back(x); }
            for (auto &x : p) { Want q = expect(v.m, x); w.push_back(q); int all = q.init | q.ended; if (all & 0xb3) break; if (x.cmd == 4) { } }
            hist += fmt(" %02x:", v.addr); for (size_t i = 0; i < p.size(); i++) hist += fmt("%s%02x/%d", i ? "," : "", p[i].cmd, p[i].count);
            for (auto &x : p) sig = sig * 131 + x.cmd * 3 + (x.count >= 80) + (x.count > 80);
            jobs.push_back({ &v, w }); note("start"); int rc = c.start(v.addr, p); note(""); if (c.broken) break; if (rc != 0) { bad("start", fmt("Start I/O of idle unit %02x got %d", v.addr, rc)); c.broken = true; break; }
            if (c.find(v.addr) && !c.sel && r.one_in(3)) { int st = 0; c.run(r.below(3000)); Sub *s = c.find(v.addr); if (s && s->working && !c.broken && !c.up(CHAN_REQ_IN) && !s->chend) { int rc2 = c.select(v.addr, 2, st, false); tally("busy_tries"); if (rc2 != 2 || st != SNS_BSY) { if (rc2 == 0 && (st & SNS_BSY)) { } else { bad("busy", fmt("a unit at work answered Start I/O with %d status %02x", rc2, st)); c.broken = true; } } } }
        }
        for (auto &j : jobs) { if (c.broken || !c.finish(j.first->addr)) break; }
        if (c.broken) break; c.idle(30);
        if (nu > 1 && jobs.size() > 1 && c.maxgap > 60) { tally("channel_too_busy"); break; } // the unit may have overrun
        for (auto &j : jobs) {
            Sub *s = c.last(j.first->addr); auto &w = j.second; tally("commands", w.size());
            if (s->res.size() != w.size()) { bad("chain", fmt("%zu commands of the program were done, wanted %zu", s->res.size(), w.size())); goto out; }
            for (size_t i = 0; i < w.size(); i++) { Res &g = s->res[i]; Want &x = w[i]; std::string id = fmt("unit %02x command %02x (%zu of the program): ", j.first->addr, g.cmd, i + 1);
                if (g.init != x.init) { bad("initial-status", id + fmt("initial status %x, wanted %x", g.init, x.init)); goto out; }
                if (!(x.init & 0xb3) && g.ended != x.ended) { bad("ending-status", id + fmt("status %x, wanted %x", g.ended, x.ended)); goto out; }
                int nce = 0, nde = 0; for (int st : g.st) { nce += (st & SNS_CHNEND) != 0; nde += (st & SNS_DEVEND) != 0; } if (g.init & SNS_CHNEND) nce++; if (g.init & SNS_DEVEND) nde++;
                if (nce > 1 || nde > 1) { bad("status-twice", id + fmt("%d channel ends and %d device ends", nce, nde)); goto out; }
                if (g.taken != x.taken) { bad("count", id + fmt("%d bytes moved, wanted %d", g.taken, x.taken)); goto out; }
                if (g.in != x.in) { size_t q = 0; while (q < g.in.size() && q < x.in.size() && g.in[q] == x.in[q]) q++; bad("data", id + fmt("%zu bytes read, wanted %zu; first difference at %zu: %02x wanted %02x", g.in.size(), x.in.size(), q, q < g.in.size() ? g.in[q] : 0, q < x.in.size() ? x.in[q] : 0)); goto out; }
                if (!(x.init & 0xb3)) { if ((g.cmd & 3) == 1 && g.taken) tally("punched"); if ((g.cmd & 7) == 2) tally("cards_read"); if (g.ended & 1) tally("unit_exceptions"); if (g.ended & 2) tally("unit_checks"); }
                if (x.init & CMDREJ) { } sig = sig * 31 + g.ended; }
            if (!check(*j.first)) goto out;
        }
        if (!c.async.empty()) { bad("extra-status", fmt("unit %02x presented status %02x nobody waits for", c.async[0].first, c.async[0].second)); break; }
    }
out:
    seen("histories", sig); if (ci % 211 == 0) sample(hist);
    while (chan[c.ch]) { device_t *d = chan[c.ch]; chan[c.ch] = d->next; _1442_context *x = (_1442_context *)d->dev; for (card_context *k : { x->feed, x->stack[0], x->stack[1] }) { free(k->images); free(k); } free(x); free(d); }
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0; for (int i = 0; i < 4096; i++) ebc[i] = -1; for (int e = 0; e < 256; e++) ebc[golden_punch(e)] = e;
    if (!C().verbose) { stderr = fopen("/dev/null", "w"); }
    cases(unit, 60); return finish();
}
