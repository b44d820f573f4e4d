// The 2415 tape control at its channel interface: random channel programs on one to four nine-track drives, with
// rewinds overlapping the work of other drives, against a model of the tapes; image files compared afterwards.
#include "swchan.hpp"
extern "C" {
#include "conf.h"
#include "logger.h"
#include "tape.h"
#include "model2415.h"
uint64_t step_count;
void model2415_draw(struct _device *, void *, int) { } void *model2415_control(struct _device *, int, int, int) { return 0; } void model2415_init(struct _device *, void *) { }
// dev_list() steps back over the list until an entry is not one: the first gives it one in bounds to end on.
__attribute__((used, section(".devlist"), aligned(1))) struct _control mocks[3] = { { (char *)"", 0, 0, NULL, NULL, 0 }, { (char *)"2415", CTRL_TYPE, CHAR_OPT | NUM_MOD, model2415_create, NULL, DEV_LIST_MAGIC }, { (char *)"", 0, 0, NULL, NULL, 0 } };
}
using namespace vh; using namespace sw;
enum { CMDREJ = 0x80, INTERV = 0x40, BUSCHK = 0x20, WCZERO = 0x02 };
typedef std::vector<uint8_t> Bytes;
struct Item { bool mark; Bytes d; };
struct Drive { bool stale = false, there = false, loaded = false, ring = false, lp = true, rewinding = false, unload = false, changed = false; int want_de = 0; std::vector<Item> t; size_t pos = 0; std::string fn; };
static std::string hist; static int sense0;
static bool bad(const char *k, const std::string &d) { violation(fmt("2415:%s", k), d + " after" + hist.substr(hist.size() > 1200 ? hist.size() - 1200 : 0)); return false; }
static std::string image(const Drive &v) { std::string s; auto p4 = [&](uint32_t n) { for (int i = 0; i < 4; i++) s += (char)(n >> (8 * i)); };
    for (auto &i : v.t) { if (i.mark) { p4(0); continue; } p4(i.d.size()); s.append((const char *)i.d.data(), i.d.size()); if (i.d.size() & 1) s += '\0'; p4(i.d.size()); } return s; }
static std::string slurp(const std::string &fn) { std::string s; if (FILE *f = fopen(fn.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
struct Want { int init; int ended; int taken; Bytes in; int free = 0; bool rewind = false; bool any = false; };
// What a command must do to a drive.
static Want expect(Drive &v, const Ccw &c) {
    Want w; w.init = 0; w.ended = 0x0c; w.taken = 0; int k = c.cmd & 15;
    auto imm = [&](int s) { w.init = s; w.ended = s; };
    if (c.cmd == 4) { int s1 = !v.there || !v.loaded ? 0x20 : 0x40 | (v.rewinding ? 0x20 : 0) | (v.ring ? 0 : 0x02) | (v.lp ? 0x08 : 0); Bytes s = { (uint8_t)sense0, (uint8_t)s1, 3, 0, 0, 0 };
        if (!v.there || v.rewinding) w.free = 1; w.taken = std::min(c.count, 6); w.in.assign(s.begin(), s.begin() + w.taken); return w; }
    if (v.rewinding) { imm(SNS_BSY); return w; }
    if (k == 3 || k == 11) { sense0 = 0; imm(0x0c); return w; }
    if (!v.there || !v.loaded) { sense0 = INTERV; imm(0x0e); return w; }
    sense0 = 0;
    auto cut = [&] { v.stale |= v.pos < v.t.size(); v.t.resize(v.pos); v.changed = true; };
    switch (c.cmd) {
    case 0x01: if (!v.ring) { sense0 = CMDREJ; imm(0x0e); break; } cut(); v.t.push_back({ false, Bytes(c.out.begin(), c.out.begin() + c.count) }); v.pos++; v.lp = false; w.taken = c.count; break;
    case 0x02: v.lp = false; if (v.pos == v.t.size()) { w.any = true; break; } if (v.t[v.pos].mark) w.ended = 0x0d; else { Bytes &d = v.t[v.pos].d; w.taken = std::min<int>(c.count, d.size()); w.in.assign(d.begin(), d.begin() + w.taken); } v.pos++; break;
    case 0x0c: if (v.lp) { imm(0x0e); break; } if (v.pos == 0) { v.lp = true; w.any = true; break; } v.pos--;
        if (v.t[v.pos].mark) w.ended = 0x0d; else { Bytes d = v.t[v.pos].d; std::reverse(d.begin(), d.end()); w.taken = std::min<int>(c.count, d.size()); w.in.assign(d.begin(), d.begin() + w.taken); } break;
    case 0x07: w.init = 8; w.rewind = true; v.rewinding = true; v.want_de = 1; break;
    case 0x0f: w.init = 8; w.rewind = true; v.rewinding = true; v.unload = true; v.want_de = 1; w.ended = 0x2e; break;
    case 0x17: if (!v.ring) { sense0 = CMDREJ; imm(0x0e); break; } w.init = 8; break;
    case 0x1f: if (!v.ring) { sense0 = CMDREJ; imm(0x0e); break; } cut(); v.t.push_back({ true, {} }); v.pos++; v.lp = false; w.init = 8; break;
    case 0x37: w.init = 8; v.lp = false; if (v.pos == v.t.size()) { w.any = true; break; } w.ended |= v.t[v.pos++].mark; break;
    case 0x3f: w.init = 8; v.lp = false; for (;;) { if (v.pos == v.t.size()) { w.any = true; break; } if (v.t[v.pos++].mark) break; } break;
    case 0x27: if (v.lp) { imm(0x0e); break; } w.init = 8; if (v.pos == 0) { v.lp = true; w.any = true; break; } w.ended |= v.t[--v.pos].mark; break;
    case 0x2f: if (v.lp) { imm(0x0e); break; } w.init = 8; for (;;) { if (v.pos == 0) { v.lp = true; w.any = true; break; } if (v.t[--v.pos].mark) break; } break;
    default: sense0 = CMDREJ; imm(0x0e);
    }
    return w;
}
static Bytes rndrec(Rng &r) { int n = r.one_in(6) ? r.range(200, 900) : r.one_in(4) ? r.range(1, 3) : r.range(4, 90); Bytes b; while (n--) b.push_back(r.below(256)); return b; }
static void unit(uint64_t ci, Rng &r) {
    init_event(); for (int i = 0; i < 8; i++) chan[i] = nullptr; hist.clear(); sense0 = 0; uint64_t sig = 1;
    Channel c; c.rng = &r; c.ch = r.below(2); c.sel = r.one_in(3); c.stack_pct = r.one_in(3) ? 30 : 0; c.slow_max = r.one_in(2) ? 0 : r.range(1, 2);
    c.err = [&](const char *k, const std::string &d) { bad(fmt("interface:%s", k).c_str(), d); };
    int base = r.below(32) << 3, model = r.range(1, 3); auto line = [&](const std::string &l) { std::vector<char> b(l.begin(), l.end()); b.resize(l.size() + 64); return load_line(b.data()); };
    if (!line(fmt("2415-%d %03x", model + (r.one_in(2) ? 3 : 0), c.ch << 8 | base)) || !chan[c.ch]) { bad("create", "the control unit could not be configured"); return; }
    device_t *d = chan[c.ch]; _2415_context *x = (_2415_context *)d->dev; std::vector<Drive> dr(8); std::vector<int> use;
    int nd = r.range(1, std::min(4, model * 2));
    for (int i = 0; i < model * 2 && (int)use.size() < nd; i++) { if (r.one_in(4) && model * 2 - i > nd - (int)use.size()) continue; use.push_back(i); Drive &v = dr[i]; v.there = true; v.fn = C().scratch + fmt("/t%d.tap", i); v.ring = r.chance(70); v.loaded = !r.one_in(8);
        int n = r.one_in(5) ? 0 : r.range(1, 10); for (int k = 0; k < n; k++) { if (r.one_in(4)) v.t.push_back({ true, {} }); else v.t.push_back({ false, rndrec(r) }); }
        std::string s = image(v); FILE *f = fopen(v.fn.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f);
        std::string l = fmt("2415U %03x", c.ch << 8 | base | i); if (v.loaded) l += fmt(" file=\"%s\"%s format=simh", v.fn.c_str(), v.ring ? " ring" : r.one_in(2) ? " noring" : ""); if (!line(l)) { bad("create", "the drive could not be configured: " + l); return; }
        if (v.loaded && !tape_ready(x->tape[i])) { bad("create", "tape not ready: " + l); return; } }
    hist += fmt(" [%s, %zu drives, stack %d, unit %02x]", c.sel ? "selector" : "multiplexor", use.size(), c.stack_pct, base);
    c.reset(); c.polled();
    auto asyncs = [&]() { // device ends of rewinds
        for (auto &a : c.async) { int u = a.first - base; if (u < 0 || u > 7 || !dr[u].rewinding || a.second != (dr[u].unload ? SNS_CTLEND | SNS_DEVEND | SNS_UNITCHK : SNS_DEVEND) || !dr[u].want_de) { bad("extra-status", fmt("address %02x presented status %02x nobody waits for", a.first, a.second)); c.broken = true; return false; }
            dr[u].want_de = 0; if (dr[u].unload) { tally("unload_ends"); continue; } dr[u].rewinding = false; dr[u].pos = 0; dr[u].lp = true; tally("rewinds"); hist += fmt(" (%d rewound)", u); }
        c.async.clear();
        for (int u : use) { Drive &v = dr[u]; if (v.rewinding && v.unload && !tape_ready(x->tape[u])) { v.rewinding = v.unload = v.loaded = false; tally("unloads"); std::string f = slurp(v.fn), q = image(v); if (v.stale ? f.compare(0, q.size(), q) != 0 : f != q) { bad("file", fmt("image of drive %d differs after unloading", u)); c.broken = true; return false; } } }
        return true; };
    auto turn = [&] { bool busy = false; for (auto &s : c.subs) busy |= s.active; if (!c.turn()) return false; if (!busy && c.down(CHAN_REQ_IN | CHAN_OPR_IN)) for (int q = 0; q < 7; q++) advance(); return asyncs(); };
    int nops = r.range(5, 30);
    for (int k = 0; k < nops && !c.broken; k++) {
        int u = r.pick(use); if (r.one_in(25)) u = r.below(8); Drive &v = dr[u]; int st = 0; uint8_t a = base | u;
        bool calm = true; for (auto &q : dr) calm &= !q.rewinding && !q.want_de; for (auto &q : c.subs) calm &= !q.active;
        if (calm && v.there && v.loaded && r.one_in(12)) { uint8_t cmd = r.pick<uint8_t>({ 0x01, 0x02, 0x0c, 0x07, 0x37, 0x1f, 0x0f, 0x04, 0x03 }); c.bad_command = true; hist += fmt(" %d:badparity%02x", u, cmd); sig = sig * 31 + 77; int rc = c.select(a, cmd, st, false); if (c.broken) break; tally("bad_parity"); if (rc != 0 || st != 0x0e) { bad("bus-out-check", fmt("command %02x with wrong parity gave Start I/O %d status %02x", cmd, rc, st)); break; }
            rc = c.start(a, { { 4, 6, false } }); if (rc == 0 && !c.broken) c.finish(a); if (c.broken) break; Res &g = c.last(a)->res[0]; if (rc != 0 || g.in.size() != 6 || !(g.in[0] & 0x20)) { bad("bus-out-check", fmt("sense after a command with wrong parity is %02x", g.in.size() ? g.in[0] : 0)); break; } sense0 = g.in[0]; continue; }
        if (calm && r.one_in(30)) { hist += " reset"; sig = sig * 31 + 78; c.reset(); sense0 = 0; tally("resets"); continue; }
        if (r.one_in(15)) { uint8_t o = r.below(256); if ((o & 0xf8) == base) continue; int rc = c.select(o, 2, st, false); tally("absent_units"); if (!c.broken && rc != 3) { bad("absent", fmt("address %02x is not there but got %d", o, rc)); break; } continue; }
        if (v.rewinding && r.one_in(2)) { for (int q = r.below(20000); q-- > 0 && v.rewinding && !c.broken;) turn(); if (c.broken) break; }
        std::vector<Ccw> p; std::vector<Want> w; int n = r.one_in(2) ? 1 : r.range(2, 5); bool back = r.one_in(3);
        for (int i = 0; i < n; i++) { Ccw y; int t = r.below(24); y.cc = true; y.cmd = t < 6 ? (v.ring && !back ? 0x01 : 0x02) : t < 9 ? 0x02 : t < 12 ? 0x0c : t < 13 ? 0x1f : t < 15 ? 0x27 : t < 17 ? 0x37 : t == 17 ? 0x2f : t == 18 ? 0x3f : t == 19 ? 0x04 : t == 20 ? (r.one_in(4) ? 0x17 : r.one_in(4) ? 0x47 : 0xc3) : t == 21 ? 0x03 : t == 22 && r.one_in(4) ? 0x0f : 0x07;
            y.count = y.cmd == 4 ? r.range(1, 8) : r.one_in(3) ? r.range(1, 60) : r.one_in(4) ? r.range(100, 1000) : r.range(1, 100); y.out.resize(y.count); for (auto &b : y.out) b = r.below(256); p.push_back(y); if ((y.cmd & 0xf7) == 0x07) break; }
        if (v.rewinding) p.resize(1);
        p.back().cc = false;
        Drive v0 = v; int ss0 = sense0;
        auto plan = [&](bool first) { w.clear(); for (size_t i = 0; i < p.size(); i++) { Ccw &y = p[i]; Drive sv = v; int ss = sense0; Want q = expect(v, y);
                // What is left on the tape beyond the last record written is nobody's business; and fewer runs off the ends.
                if (first && q.any && ((sv.stale && !(y.cmd & 8 && y.cmd != 0x3f)) || r.one_in(2))) { v = sv; sense0 = ss; y.cmd = 0x03; q = expect(v, y); }
                if (first) { hist += fmt("%s%02x/%d", i ? "," : fmt(" %d:", u).c_str(), y.cmd, y.count); sig = sig * 131 + y.cmd; }
                w.push_back(q); if (q.any) { p.resize(i + 1); p[i].cc = false; } if (q.any || ((q.init | q.ended) & 0xb3) || q.rewind) break; } };
        if (v.rewinding && !v.unload && v.stale) { Drive alt = v; alt.rewinding = false; alt.pos = 0; alt.lp = true; int ss = sense0; if (expect(alt, p[0]).any) p[0].cmd = 0x03; sense0 = ss; }
        plan(true); int rc = 0;
        for (int tries = 0; tries < 30; tries++) { note("start"); rc = c.start(a, p); note(""); if (c.broken) break; Sub *s = c.last(a);
            if (rc == 2 && s->res.back().init == (0x200 | SNS_BSY | SNS_SMS)) { tally("control_unit_busy"); for (int q = 0; q < 300 && !c.broken; q++) turn(); if (c.broken) break; if (v0.rewinding && !v.rewinding) { v0 = v; plan(false); } continue; }
            if (v0.rewinding && s && !s->res.empty() && s->res[0].init != SNS_BSY) { // the rewind ended meanwhile
                int in = s->res[0].init; v = v0; sense0 = ss0; if (in == (SNS_BSY | SNS_DEVEND) && v.want_de) { v.rewinding = false; v.want_de = 0; v.pos = 0; v.lp = true; tally("rewind_ends_at_selection"); v0 = v; plan(false); continue; } if (!asyncs()) break; v0 = v; plan(false); }
            break; }
        if (c.broken) break; if (rc != 0) { bad("start", fmt("Start I/O of drive %d got %d", u, rc)); break; }
        bool died = false; uint64_t lim = c.steps + 400000; while (c.find(a) && !c.broken && c.steps < lim) { Sub *s = c.find(a); if (s->pc + 1 == w.size() && w.back().rewind && s->res.size() == w.size()) { if (s->chend) { s->active = s->working = false; break; } } if (!c.turn()) break; if (!c.find(a)) break; if (!asyncs()) break; if (c.down(CHAN_REQ_IN | CHAN_OPR_IN)) for (int q = 0; q < 3; q++) advance(); }
        if (c.broken) break; if (c.find(a)) { bad("stuck", fmt("the operation on drive %d does not end", u)); break; } c.idle(20); (void)died;
        Sub *s = c.last(a); tally("commands", w.size()); if (s->res.size() != w.size()) { bad("chain", fmt("%zu commands of the program were done, wanted %zu", s->res.size(), w.size())); break; }
        bool stop = false;
        for (size_t i = 0; i < w.size() && !stop; i++) { Res &g = s->res[i]; Want &q = w[i]; std::string id = fmt("drive %d command %02x/%d (%zu of the program): ", u, g.cmd, p[i].count, i + 1); stop = true;
            if (g.init != q.init) { bad("initial-status", id + fmt("initial status %x, wanted %x", g.init, q.init)); break; }
            if (q.rewind) { stop = false; tally("rewinds_started"); continue; }
            if (!(q.init & 0xb3) && (q.any ? (g.ended & 0x0c) != 0x0c : g.ended != q.ended)) { bad("ending-status", id + fmt("status %x, wanted %x", g.ended, q.ended)); break; }
            if (q.any) { tally("ran_off_the_tape"); if (g.taken) { bad("count", id + "bytes moved off the end of the tape"); break; } }
            if (g.taken != q.taken) { bad("count", id + fmt("%d bytes moved, wanted %d", g.taken, q.taken)); break; }
            if (!q.free && g.in != q.in) { size_t e = 0; while (e < g.in.size() && e < q.in.size() && g.in[e] == q.in[e]) e++; bad(g.cmd == 4 ? "sense" : "data", id + fmt("first difference at byte %zu of %zu: %02x wanted %02x", e, q.in.size(), e < g.in.size() ? g.in[e] : -1, e < q.in.size() ? q.in[e] : -1)); break; }
            tally(g.cmd == 1 ? "records_written" : g.cmd == 2 ? "reads" : g.cmd == 12 ? "reads_backward" : "controls"); tally("bytes", g.taken); if (g.ended & 1) tally("marks"); if ((g.init | g.ended) & 2) tally("unit_checks"); if (g.init == SNS_BSY) tally("busy"); sig = sig * 31 + g.ended; stop = false; }
        if (stop) break;
        for (auto &q : w) if (q.any) { v.loaded = v.loaded; } // position after running off is known: the end
        if (!asyncs()) break;
    }
    // all rewinds end
    for (uint64_t e = 0; e < 400000 && !c.broken; e++) { bool any = false; for (int u : use) any |= dr[u].rewinding; if (!any) break; if (!turn()) break; if (e == 399999) bad("rewind", "a rewind does not end"); }
    if (!c.broken) for (int u : use) if (dr[u].loaded) { tape_detach(x->tape[u]); tally("images_compared"); std::string g = slurp(dr[u].fn), q = image(dr[u]); if (dr[u].stale ? g.compare(0, q.size(), q) != 0 : g != q) { bad("file", fmt("image of drive %d differs from what was written", u)); break; } }
    seen("histories", sig); if (ci % 211 == 0) sample(hist);
    for (int i = 0; i < 6; i++) if (x->tape[i]) { if (tape_ready(x->tape[i])) tape_detach(x->tape[i]); free(x->tape[i]); } for (int u : use) unlink(dr[u].fn.c_str());
    free(x); free(d); chan[c.ch] = nullptr;
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0; if (!C().verbose) { stderr = fopen("/dev/null", "w"); }
    cases(unit, 60); return finish();
}
