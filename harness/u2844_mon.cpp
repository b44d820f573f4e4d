// 2844 storage control with 2314 drives.
#include "swchan.hpp"
#include <sys/stat.h>
extern "C" {
#include "conf.h"
#include "logger.h"
#include "dasd.h"
#include "model2844.h"
uint64_t step_count;
void model2314_draw(struct _device *, void *, int) { } void *model2314_control(struct _device *, int, int, int) { return 0; } void model2314_init_graphics(struct _device *, void *) { }
int model2314_create(struct _option *) { return 1; } int model2844_create(struct _option *) { return 1; }
}
using namespace vh; using namespace sw;
enum { NCYL = 203, HEADS = 20, TS = 7680 };
typedef std::vector<uint8_t> Bytes;
struct Rec { uint8_t c[8]; std::string key, data; };
struct Track { uint8_t ha[5]; std::vector<Rec> r; };
static std::string hex(const Bytes &s, size_t n = 24) { std::string r; for (size_t i = 0; i < s.size() && i < n; i++) r += fmt("%02x", s[i]); if (s.size() > n) r += fmt("..(%zu)", s.size()); return r; }
static Rec rec(int cyl, int hd, int n, const std::string &key, const std::string &data) { Rec r; r.c[0] = cyl >> 8; r.c[1] = cyl; r.c[2] = hd >> 8; r.c[3] = hd; r.c[4] = n; r.c[5] = key.size(); r.c[6] = data.size() >> 8; r.c[7] = data.size(); r.key = key; r.data = data; return r; }
static std::string pack(const Track &t) { std::string s((const char *)t.ha, 5); for (auto &r : t.r) { s.append((const char *)r.c, 8); s += r.key; s += r.data; } s.append(4, (char)0xff); s.resize(TS, 0); return s; }
static std::string header() { std::string h = "CKD_P370"; auto le = [&](uint32_t v, int n) { while (n--) { h += (char)v; v >>= 8; } }; le(HEADS, 4); le(TS, 4); h += (char)0x14; h += '\0'; le(NCYL - 1, 2); h.resize(512, 0); return h; }
static std::string rnd(Rng &r, int n) { std::string s(n, 0); int k = r.below(5); for (auto &c : s) c = k == 0 ? (char)0 : k == 1 ? (char)0xff : (char)r.u32(); return s; }
static Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
static std::string hist;
static bool vio; static bool failed() { return vio; }
static bool bad(const char *k, const std::string &d) { vio = true; violation(fmt("2844:%s", k), d + " after" + hist.substr(hist.size() > 1500 ? hist.size() - 1500 : 0)); return false; }
static _2844_context *X0; static void disks() { for (int i = 0; i < 2; i++) { step_disk(); if (C().verbose && getenv("WXTRACE")) fprintf(stderr, "   WX %03x ST %02x IG %02x OP %02x DW %02x DR %02x BY %02x FT %02x FC %02x tr %d%d srv %d req %d\n", X0->WX, X0->ST_REG, X0->IG_REG, X0->OP_REG, X0->DW_REG, X0->DR_REG, X0->BY_REG, X0->FT, X0->FC, X0->tr_1, X0->tr_2, X0->srv_in, X0->svc_req); if (getenv("DKTRACE") && X0->disk[X0->unit_num]) { _dasd_t *q = X0->disk[X0->unit_num]; fprintf(stderr, "     D state %d cpos %d count %d tpos %d rpos %d ams %d flags %02x step %d klen %d dlen %d\n", q->state, q->cpos, q->count, q->tpos, q->rpos, q->am_search, q->flags, q->step, q->klen, q->dlen); } } }
static int used(const Rec &q) { return (int)(q.data.size() + q.key.size()) * 107 / 100 + 150 + (q.key.size() ? 60 : 0); }
static int used(const Track &t) { int n = 0; for (auto &q : t.r) n += used(q); return n; }
enum { ROOM = 6900 };
struct Drive { bool there = false; std::string fn; std::map<int, std::vector<Track>> vol; int cyl = 0, head = 0; struct _dasd_t *d = nullptr; int seeking = -1; };
// One command of a program with what must come of it.
struct Step { Ccw c; int init = 0, ended = 0x0c, taken = -1; Bytes in; int alt = 0; /* unit check with this sense allowed too (ends the program) */ bool search = false; };
enum { CR = 0x8000, IR = 0x4000, SK_CK = 0x0100, INV = 0x0010, NRF = 0x0008, FP = 0x0004, EOC = 0x0020 };
struct Prog { std::vector<Step> s; int sense = 0; std::string name; bool fmtw = false;
    Step &add(uint8_t cmd, int count, const Bytes &out = {}) { Step x; x.c = { cmd, count, true, out }; x.taken = count; s.push_back(x); return s.back(); }
    Step &rd(uint8_t cmd, int count, const Bytes &want) { Step x; x.c = { cmd, count, true, {} }; x.taken = std::min<int>(count, want.size()); x.in.assign(want.begin(), want.begin() + x.taken); s.push_back(x); return s.back(); }
    void tic(int to) { Step x; x.c = { 8, 0, true, {}, to }; s.push_back(x); }
    Step &search(uint8_t cmd, const Bytes &arg) { int at = s.size(); Step &x = add(cmd, arg.size(), arg); x.search = true; x.ended = 0x4c; tic(at); return s[at]; }
    void fail(int sn) { s.back().ended = 0x0e; s.back().taken = 0; s.back().in.clear(); sense = sn; } // unit check before any data
};
static Bytes count_of(const Rec &q) { return Bytes(q.c, q.c + 8); }
static Bytes id_of(const Rec &q) { return Bytes(q.c, q.c + 5); }
static Bytes ckd(const Rec &q) { Bytes b = count_of(q); b.insert(b.end(), q.key.begin(), q.key.end()); b.insert(b.end(), q.data.begin(), q.data.end()); return b; }
static Bytes kd(const Rec &q) { Bytes b = B(q.key); b.insert(b.end(), q.data.begin(), q.data.end()); return b; }
static int pickcount(Rng &r, int n) { return r.one_in(3) ? std::max(1, n) : r.one_in(2) ? n + r.range(1, 50) : r.range(1, std::max(1, n)); }
// what a drive is given to write: all of it or more (see DESIGN.md on shorter counts)
static int wcount(Rng &r, int n) { return r.one_in(2) ? std::max(1, n) : n + r.range(1, 50); }
static void unit(uint64_t ci, Rng &r) {
    init_event(); for (int i = 0; i < 8; i++) chan[i] = nullptr; disk = NULL; hist.clear(); vio = false; uint64_t sig = 1;
    int base = r.range(0, 15) << 4;
    Channel c; c.rng = &r; c.sel = true; c.tick = disks; c.stack_pct = r.one_in(3) ? 20 : 0; c.stack_chained = false; c.stack_cue = false; c.slow_max = 0;
    c.err = [&](const char *k, const std::string &d) { bad(fmt("interface:%s", k).c_str(), d); };
    device_t *dev = model2844_init(base); _2844_context *x = (_2844_context *)dev->dev; X0 = x; std::vector<Drive> dr(8); std::vector<int> use; int nd = r.range(1, 3);
    static const int CY[] = { 0, 1, 5, 101, 202 };
    while ((int)use.size() < nd) { int u = r.below(8); if (dr[u].there) continue; use.push_back(u); Drive &v = dr[u]; v.there = true; v.fn = C().scratch + fmt("/d%d.ckd", u);
        int fd = open(v.fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); std::string h = header(); if (ftruncate(fd, 512 + (off_t)TS * HEADS * NCYL) || pwrite(fd, h.data(), 512, 0) != 512) return;
        for (int cy : CY) { std::string all; for (int hd = 0; hd < HEADS; hd++) { Track t; uint8_t ha[5] = { 0, (uint8_t)(cy >> 8), (uint8_t)cy, 0, (uint8_t)hd }; memcpy(t.ha, ha, 5); t.r.push_back(rec(cy, hd, 0, "", rnd(r, 8))); int n = r.one_in(4) ? 1 : r.range(1, 8), big = r.one_in(3);
                for (int i = 1; i <= n; i++) { Rec q = rec(cy, hd, i, r.one_in(2) ? rnd(r, r.one_in(9) ? r.range(1, 255) : r.range(1, 20)) : "", ""); std::string dta = rnd(r, r.one_in(10) ? 0 : big ? r.range(1, 3000) : r.range(1, 200)); q = rec(cy, hd, i, q.key, dta); if (used(t) + used(q) > ROOM) break; t.r.push_back(q); }
                v.vol[cy].push_back(t); all += pack(t); }
            if (pwrite(fd, all.data(), all.size(), 512 + (off_t)TS * HEADS * cy) != (ssize_t)all.size()) return; }
        close(fd); v.d = x->disk[u] = (_dasd_t *)calloc(1, sizeof(_dasd_t)); dasd_settype(v.d, (char *)"2314"); if (dasd_attach(v.d, (char *)v.fn.c_str(), 0) != 1) { bad("attach", "volume not accepted"); return; } }
    c.tags = 0; c.idle(3); c.tags = CHAN_OPR_OUT; c.idle(400);
    hist += fmt(" [unit %02x, %d drives, stack %d]", base, nd, c.stack_pct);
    auto wait = [&](uint8_t a) { return c.finish(a, 2000000); };
    // starts a program, waiting for the control unit when it is busy
    auto go = [&](int u, const std::vector<Ccw> &p) { for (int t = 0; t < 60 && !c.broken; t++) { int rc = c.start(base | u, p); if (c.broken) return -1; Sub *s = c.last(base | u); if (rc == 2 && s->res.back().init == (0x200 | SNS_BSY | SNS_SMS)) { tally("control_unit_busy"); uint64_t e = c.steps + 200000; size_t n = c.async.size(); while (c.async.size() == n && !c.broken && c.steps < e) c.turn(); if (c.async.size() == n && !c.broken) { bad("busy-end", "control unit busy but no control unit end"); return -1; } for (auto &a : c.async) if ((a.first & 0xf0) == base && a.second == SNS_CTLEND) tally("control_unit_ends"); else bad("extra-status", fmt("address %02x presented status %02x", a.first, a.second)); c.async.clear(); continue; } return rc; } return -1; };
    auto describe = [&](Res &g) { std::string t = fmt("%02x init %x ended", g.cmd, g.init); for (int v : g.st) t += fmt(" %02x", v); return t + fmt(" moved %d of %d %s", g.taken, (int)(c.subs.back().prog.size() > g.pc ? c.subs.back().prog[g.pc].count : -1), hex(g.in).c_str()); };
    std::function<bool(int, Prog &, int)> run = [&](int u, Prog &p, int tries) {
        hist += fmt(" %d:%s", u, p.name.c_str()); std::vector<Ccw> v; for (auto &q : p.s) v.push_back(q.c); v.back().cc = false; uint64_t s0 = c.steps; note(p.name.c_str()); int rc = go(u, v); if (!c.broken && rc == 0) wait(base | u); note(""); if (c.broken || failed()) { if (C().verbose && c.subs.size()) for (auto &g : c.subs.back().res) printf("    | %s\n", describe(g).c_str()); return false; }
        if (rc != 0) return bad("start", fmt("Start I/O got %d", rc)); Sub *s = c.last(base | u); tally("programs_done"); tally("commands", s->res.size()); if (C().verbose) { printf("%s (%llu steps)\n", p.name.c_str(), (unsigned long long)(c.steps - s0)); for (auto &g : s->res) printf("    %s\n", describe(g).c_str()); }
        size_t i = 0; int sense = 0; bool over = false;
        for (size_t k = 0; k < s->res.size(); k++) { Res &g = s->res[k]; while (i < p.s.size() && p.s[i].c.tic >= 0) i++; if (g.pc >= p.s.size()) return bad("chain", "ran past the program");
            Step &w = p.s[g.pc]; int all = g.ended | (g.init & 0xff); bool last = k + 1 == s->res.size();
            if (w.search && !last && s->res[k + 1].pc == g.pc) { if (all != 0x0c) return bad("search", fmt("%s: %s", p.name.c_str(), describe(g).c_str())); tally("searches_unequal"); if (k > 600) return bad("search", "endless"); continue; }
            if (g.pc != i) return bad("chain", fmt("%s: command %zu done, wanted %zu", p.name.c_str(), g.pc, i)); i++;
            if (all == 0x0e && w.search && w.ended == 0x4c && g.taken == 0 && tries < 3) { // the read gate may come on in the middle of something: an overrun which is tried again
                if (go(u, { { 4, 6, false } }) == 0 && !c.broken) wait(base | u); if (c.broken || failed()) return false; Res &q = c.last(base | u)->res[0]; if (q.in.size() == 6 && q.in[0] == 4 && q.in[1] == 0) { tally("overruns_tried_again"); return run(u, p, tries + 1); } return bad("unit-check", fmt("%s: search ended with sense %s", p.name.c_str(), hex(q.in).c_str())); }
            if (all == 0x0e && w.alt) { sense = w.alt; over = true; break; }
            if (C().verbose && all == 0x0e && w.ended != 0x0e) printf("out out %s\n", hex(v[g.pc].out).c_str()); if (C().verbose && all == 0x0e && w.ended != 0x0e && go(u, { { 4, 6, false } }) == 0) { wait(base | u); printf("    sense %s\n", hex(c.last(base | u)->res[0].in).c_str()); return bad("unit-check", p.name); }
            if (g.init != w.init) return bad("initial-status", fmt("%s: %s, wanted initial status %x", p.name.c_str(), describe(g).c_str(), w.init));
            if (all != w.ended) return bad("ending-status", fmt("%s: %s, wanted status %x", p.name.c_str(), describe(g).c_str(), w.ended));
            if (g.taken != w.taken) return bad("count", fmt("%s: %s, wanted %d bytes", p.name.c_str(), describe(g).c_str(), w.taken));
            if (g.in != w.in) { size_t e = 0; while (e < g.in.size() && e < w.in.size() && g.in[e] == w.in[e]) e++; return bad("data", fmt("%s: command %02x byte %zu of %zu is %02x, wanted %02x", p.name.c_str(), g.cmd, e, w.in.size(), g.in[e], w.in[e])); }
            tally(fmt("cmd_%02x", g.cmd).c_str()); tally("bytes_compared", g.in.size()); if (all & 2) { over = true; sense = p.sense; tally("unit_checks"); break; } if (all & 1) tally("unit_exceptions"); }
        while (i < p.s.size() && p.s[i].c.tic >= 0) i++;
        if (!over && i < p.s.size()) return bad("chain", fmt("%s: stopped before command %zu", p.name.c_str(), i));
        if (sense || (p.name != "nop" && r.one_in(6))) { if (go(u, { { 4, 6, false } }) == 0 && !c.broken) wait(base | u); if (c.broken || failed()) return false; Res &g = c.last(base | u)->res[0]; if (g.init || g.ended != 0x0c || g.in.size() != 6) return bad("sense", fmt("sense: %s", describe(g).c_str())); int got = g.in[0] << 8 | g.in[1]; if (got == 0x0400 && sense == NRF && tries < 3) { tally("overruns_tried_again"); return run(u, p, tries + 1); } if (got != sense) return bad("sense", fmt("%s: sense %s, wanted %04x", p.name.c_str(), hex(g.in).c_str(), sense)); if (g.in[3] != 0x40 || g.in[4] != u) return bad("sense-drive", fmt("%s: sense %s for drive %d", p.name.c_str(), hex(g.in).c_str(), u)); tally("senses"); seen("senses", sense); }
        return true; };
    // makes up a program for a drive and what it must give, and does it to the model
    auto build = [&](Drive &v, Prog &p) { int kind = r.below(16), wascyl = v.cyl, washead = v.head;
        auto seek = [&](int cy, int hd) { bool same = cy == v.cyl; p.add(r.one_in(5) && same ? 0x1b : 0x07, 6, { 0, 0, (uint8_t)(cy >> 8), (uint8_t)cy, 0, (uint8_t)hd }); v.cyl = cy; v.head = hd; };
        auto mask = [&](uint8_t m) { p.add(0x1f, 1, { m }); };
        int cy = r.one_in(2) && v.vol.count(v.cyl) ? v.cyl : r.pick(CY), hd = r.one_in(3) && cy == v.cyl ? v.head : r.below(HEADS), k; auto *t = &v.vol[cy][hd]; int n = (int)t->r.size() - 1;
        int lo = 0, hi = 1; // index points passed since the last command that starts the count of them anew
        auto next = [&](int i) { return i + 1 > n ? 1 : i + 1; };
        auto chain_reads = [&](int i, int area) { // reads on from record i; area 0 count read, 1 key read, 2 data read
            int m = r.one_in(2) ? 1 : r.range(1, 4);
            for (; m > 0; m--) { int j = area == 2 ? next(i) : i; bool wrapped = area == 2 && i + 1 > n; static const uint8_t ops[] = { 0x06, 0x0e, 0x12, 0x1e }; uint8_t op = r.pick(ops);
                if (op == 0x12 || op == 0x1e || (op == 0x0e && area == 1)) { j = next(i); wrapped = i + 1 > n; }
                if (n < 1) return; Rec &q = t->r[j]; Bytes w = op == 6 ? B(q.data) : op == 0x0e ? kd(q) : op == 0x12 ? count_of(q) : ckd(q); Step &st = p.rd(op, pickcount(r, w.size()), w); lo += wrapped; hi += wrapped;
                if (lo >= 2) { p.fail(NRF); return; } if (hi >= 2) st.alt = NRF; bool eof = q.data.empty() && op != 0x12; if (eof) { st.ended = 0x0d; return; } if (op != 0x12) lo = hi = 0; i = j; area = op == 0x12 ? 0 : 2; } };
        auto pin = [&] { p.rd(0x1a, pickcount(r, 5), Bytes(t->ha, t->ha + 5)); lo = hi = 0; };
        auto find = [&](int i) { if (r.one_in(2)) pin(); p.search(0x31, id_of(t->r[i])); };
        auto keyed = [&](int i) { const std::string &y = t->r[i].key; if (y.empty()) return false; for (int j = 1; j <= n; j++) if (j != i) { const std::string &z = t->r[j].key; size_t m = std::min(y.size(), z.size()); if (m && !y.compare(0, m, z, 0, m)) return false; } return true; };
        auto newrec = [&](int id, int room) { Rec q = rec(cy, hd, id, r.one_in(2) ? rnd(r, r.one_in(9) ? r.range(3, 255) : r.range(3, 20)) : "", rnd(r, r.one_in(10) ? 0 : r.one_in(4) ? r.range(3, 2500) : r.range(3, 200))); if (used(q) > room) q = rec(cy, hd, id, "", rnd(r, 5)); return q; };
        auto cut = [&](Bytes w, int c) { for (int i = c; i < (int)w.size(); i++) w[i] = 0; return w; };
        // a formatting write: count, key and data, with what a short count leaves as zeros
        auto wckd = [&](uint8_t cmd, Rec q) { Bytes w = ckd(q); int c = wcount(r, w.size()); Bytes o = w; o.resize(std::max<size_t>(c, w.size()), 0xee); Step &st = p.add(cmd, c, o); st.taken = std::min<int>(c, w.size()); w = cut(w, c); q.key.assign(w.begin() + 8, w.begin() + 8 + q.key.size()); q.data.assign(w.begin() + 8 + q.key.size(), w.end()); return q; };
        if (n < 1 && (kind < 6 || kind == 8)) kind = 6;
        switch (kind) {
        case 0: p.name = fmt("ha/r0 %d/%d", cy, hd); seek(cy, hd); if (r.one_in(2)) { pin(); if (r.one_in(3)) break; } { Bytes w = ckd(t->r[0]); p.rd(0x16, pickcount(r, w.size()), w); lo = hi = 0; if (r.one_in(2)) chain_reads(0, 2); } break;
        case 1: case 2: k = r.range(0, n); p.name = fmt("id read %d/%d/%d", cy, hd, k); seek(cy, hd); find(k); chain_reads(k, 0); break;
        case 3: k = r.range(1, n); if (!keyed(k)) break; p.name = fmt("key read %d/%d/%d", cy, hd, k); seek(cy, hd); if (r.one_in(2)) pin(); p.search(0x29, B(t->r[k].key)); chain_reads(k, 1); break;
        case 4: case 5: { // writes of data, or of key and data
            k = r.range(0, n); Rec &q = t->r[k]; bool key = r.one_in(3), wkd = !key && r.one_in(3); if (q.data.size() < 3 || (key && !keyed(k)) || (wkd && ((q.key.size() && q.key.size() < 3) || q.data.size() < 3))) break; p.name = fmt("%s %d/%d/%d", wkd ? "write kd" : "write d", cy, hd, k); if (r.one_in(4)) mask(r.pick<uint8_t>({ 0x00, 0x80, 0xc0 })); seek(cy, hd);
            if (key) { if (r.one_in(2)) pin(); p.search(0x29, B(q.key)); } else find(k);
            Bytes w = wkd ? kd(q) : B(q.data); for (auto &b : w) b = r.u32(); int c = wcount(r, w.size()); Bytes o = w; o.resize(std::max<size_t>(c, w.size()), 0xee); p.add(wkd ? 0x0d : 0x05, c, o).taken = std::min<int>(c, w.size()); w = cut(w, c);
            if (wkd) { q.key.assign(w.begin(), w.begin() + q.key.size()); q.data.assign(w.begin() + q.key.size(), w.end()); } else q.data.assign(w.begin(), w.end());
            lo = hi = 0; if ((!wkd || q.key.empty()) && r.one_in(2)) { p.name += "+read"; chain_reads(k, 2); } break; }
        case 6: { // formatting from a record on
            k = r.range(0, n); int m = r.range(1, 4); p.name = fmt("format %d/%d after %d of %d, %d records", cy, hd, k, n, m); mask(r.one_in(2) ? 0xc0 : 0x00); seek(cy, hd); find(k); if (r.one_in(4) && t->r[k].data.size()) p.rd(0x06, pickcount(r, t->r[k].data.size()), B(t->r[k].data));
            t->r.resize(k + 1); for (int i = 0; i < m; i++) { int room = ROOM - used(*t); if (room < 300) break; t->r.push_back(wckd(0x1d, newrec(100 + i + 10 * r.below(15), room))); for (int j = 0; j <= k; j++) if (t->r[j].c[4] == t->r.back().c[4]) { } }
            if (p.s.back().c.cmd != 0x1d) p = Prog(); break; }
        case 7: { // home address and record zero written anew
            p.name = fmt("new track %d/%d", cy, hd); mask(0xc0); seek(cy, hd); Bytes h(t->ha, t->ha + 5); h[0] = 0; p.add(0x19, 5, h); t->r.clear(); Rec q = rec(cy, hd, 0, "", rnd(r, 8)); t->r.push_back(wckd(0x15, q)); int m = r.below(4); for (int i = 0; i < m; i++) t->r.push_back(wckd(0x1d, newrec(i + 1, ROOM - used(*t)))); break; }
        case 8: { p.name = fmt("no record %d/%d", cy, hd); seek(cy, hd); if (r.one_in(2)) pin(); Bytes id = id_of(t->r[r.range(0, n)]); id[r.below(5)] ^= 1 << r.below(8); bool is = false; for (auto &q : t->r) is |= id == id_of(q); if (is) { p = Prog(); break; } p.search(0x31, id); p.s[p.s.size() - 2].c.cmd = 0x31; { Step &st = p.s[p.s.size() - 2]; st.ended = 0x0e; st.taken = 0; } p.sense = NRF; p.rd(0x06, 10, {}); break; }
        case 9: { // seeks that cannot be done
            int bad_ = r.below(4); Bytes a = { 0, 0, (uint8_t)(cy >> 8), (uint8_t)cy, 0, (uint8_t)hd }; if (bad_ == 0) { a[3] = r.range(203, 255); } else if (bad_ == 1) a[5] = r.range(20, 31); else if (bad_ == 2) a[r.below(2)] = r.range(1, 255); else a[2] = r.range(1, 255); p.name = fmt("bad seek %s", hex(a).c_str()); p.add(0x07, 6, a); p.s.back().ended = 0x0e; p.sense = SK_CK | CR; break; }
        case 10: p.name = "recalibrate"; p.add(0x13, 1).taken = 0; v.cyl = 0; v.head = 0; break;
        case 11: p.name = "invalid"; p.add(r.pick<uint8_t>({ 0x23, 0x33, 0x43, 0x09, 0x0d, 0x1d, 0x05, 0x11, 0x01 }), 5, Bytes(5)); p.s.back().init = 0x02; p.s.back().ended = 2; p.s.back().taken = 0; k = p.s.back().c.cmd; p.sense = k == 0x0d || k == 0x1d || k == 0x05 || k == 0x11 || k == 0x01 ? CR | INV : CR; break;
        case 12: { if (n < 1) break; k = r.range(1, n); uint8_t m = r.pick<uint8_t>({ 0x40, 0x80 }); p.name = fmt("mask %02x", m); mask(m); seek(cy, hd); find(k); p.add(m == 0x40 ? 0x05 : 0x1d, 10, Bytes(10)); p.fail(CR | FP); p.s.back().init = p.s.back().ended = 2; break; }
        case 13: { uint8_t m = r.pick<uint8_t>({ 0x18, 0x10, 0x08 }); p.name = fmt("seek mask %02x", m); mask(m); if (m == 8) p.add(0x13, 1).taken = 0; else { p.add(0x07, 6, Bytes(6)); } p.fail(FP); p.s.back().init = p.s.back().ended = 2; break; }
        case 14: { if (!v.vol.count(0)) break; Track &z = v.vol[0][0]; if (z.r.size() < 2 || z.r[1].data.empty()) break; p.name = "ipl"; v.cyl = v.head = 0; p.rd(0x02, pickcount(r, z.r[1].data.size()), B(z.r[1].data)); break; }
        }
        if (p.s.empty()) { v.cyl = wascyl; v.head = washead; kind = 15; p.name = "nop"; Step &q = p.add(3, 1); q.ended = q.init = 0x0c; q.taken = 0; }
        return kind; };
    int nops = r.range(6, 16); bool calm = true;    // calm: no track is still being written
    for (int k = 0; k < nops && !c.broken && !failed(); k++) {
        if (r.one_in(8)) { int a = r.below(256); if ((a & 0xf0) != base) { hist += fmt(" other unit %02x", a); int rc = c.start(a, { { 3, 1, false } }); if (c.broken) break; if (rc != 3) { bad("foreign", fmt("unit %02x got answer %d from a control unit at %02x", a, rc, base)); break; } tally("other_addresses"); } }
        if (r.one_in(12) && nd < 8) { int a = r.below(8); if (!dr[a].there) { static const uint8_t ops[] = { 0x07, 0x13, 0x03, 0x1a, 0x31, 0x02 }; uint8_t op = r.pick(ops); hist += fmt(" absent %d:%02x", a, op); int rc = go(a, { { op, 6, false, Bytes(6) } }); if (c.broken || rc < 0) break; if (rc == 0) wait(base | a); if (c.broken) break; Res &g = c.last(base | a)->res[0]; if (rc != 0 || g.init != 2 || g.ended != 2 && g.ended != 0) { bad("absent", fmt("Start I/O %d %s, wanted unit check", rc, describe(g).c_str())); break; } if (go(a, { { 4, 6, false } }) == 0) wait(base | a); if (c.broken) break; Res &q = c.last(base | a)->res[0]; if (q.in.size() != 6 || q.in[0] != 0x40 || q.in[1] || q.in[4] != a) { bad("absent", fmt("sense %s, wanted 4000....%02x", describe(q).c_str(), a)); break; } tally("absent_drives"); } }
        if (calm && r.one_in(15)) { hist += " reset"; c.reset(); tally("resets"); }
        int u = r.pick(use); Drive &v = dr[u]; Prog p; int kind = build(v, p); sig = sig * 131 + kind * 7 + p.s.size(); calm = kind < 4 || kind > 7; if (!run(u, p, 0)) break;
        if (v.d->cyl != v.cyl || v.d->head != v.head) { bad("position", fmt("%s: drive is at %d/%d, wanted %d/%d", p.name.c_str(), v.d->cyl, v.d->head, v.cyl, v.head)); break; }
    }
    for (auto &a : c.async) if (!((a.first & 0xf0) == base && a.second == SNS_CTLEND)) bad("extra-status", fmt("address %02x presented status %02x", a.first, a.second));
    // let the last writing finish, then the image must hold what was written
    if (!c.broken && !failed()) { c.run(120000); for (int u : use) { Drive &v = dr[u]; dasd_detach(v.d); int fd = open(v.fn.c_str(), O_RDONLY); std::string b(TS, 0); for (auto &q : v.vol) for (int hd = 0; hd < HEADS; hd++) { Track &t = q.second[hd]; if (pread(fd, &b[0], TS, 512 + (off_t)TS * (HEADS * q.first + hd)) != TS) { bad("image", "short"); break; } std::string w = pack(t); size_t n = w.find_last_not_of('\0') + 1; tally("tracks_compared"); if (b.compare(0, n, w, 0, n) != 0) { size_t e = 0; while (b[e] == w[e]) e++; bad("image", fmt("drive %d cylinder %d head %d differs at byte %zu: %02x wanted %02x", u, q.first, hd, e, (uint8_t)b[e], (uint8_t)w[e])); } } close(fd); } }
    seen("histories", sig); if (ci % 37 == 0) sample(hist);
    for (int u : use) { free(dr[u].d); unlink(dr[u].fn.c_str()); } free(x); free(dev); chan[0] = nullptr; free(disk); disk = nullptr;
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0; umask(077); if (!C().verbose) stderr = fopen("/dev/null", "w");
    setvbuf(stdout, NULL, _IOLBF, 0); cases(unit, 120); return finish();
}
