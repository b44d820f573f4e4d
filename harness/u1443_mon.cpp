// The 1443 printer at its channel interface (mode channel) and its carriage alone (mode paper):
// the paper that comes out, decoded from the output file, against a model of the forms motion.
#include "swchan.hpp"
extern "C" {
#include "conf.h"
#include "logger.h"
#include "model1443.h"
uint64_t step_count;
void model1443_draw(struct _device *, void *, int) { } void *model1443_control(struct _device *, int, int, int) { return 0; } void model1443_init(struct _device *, void *) { }
// dev_list() steps back over the list until an entry is not one: the first gives it one in bounds to end on.
__attribute__((used, section(".devlist"), aligned(1))) struct _control mocks[3] = { { (char *)"", 0, 0, NULL, NULL, 0 }, { (char *)"1443", DEV_TYPE, 0, model1443_create, NULL, DEV_LIST_MAGIC }, { (char *)"", 0, 0, NULL, NULL, 0 } };
}
using namespace vh; using namespace sw;
enum { CMDREJ = 0x80, CHAN9 = 0x01 };
static std::string squeeze(std::string s) { s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; }
// A line printed on twice without spacing is in the file as one text after the other: its blanks are not compared.
struct Line { int page, row; std::string text; bool over = false; bool operator==(const Line &o) const { return page == o.page && row == o.row && (over || o.over ? squeeze(text) == squeeze(o.text) : text == o.text); } };
struct Paper {
    std::vector<Line> lines; int page = 0, row = 0, last = -1; // last: the line last printed on, even with blanks
    void print(std::string s) { bool any = !s.empty(); while (!s.empty() && s.back() == ' ') s.pop_back(); bool tw = any && last == page * 1000 + row; if (any) last = page * 1000 + row; if (s.empty()) return;
        if (!lines.empty() && lines.back().page == page && lines.back().row == row) { lines.back().text += s; lines.back().over = true; } else lines.push_back({ page, row, s, tw }); }
};
struct Model {
    Paper p; std::vector<uint16_t> fcb; int lpp = 66, sense = 0; bool nine = false, twelve = false;
    void line() { if (fcb[p.row] & 0x008) nine = true; if (fcb[p.row] & 0x001) twelve = true; if (++p.row >= lpp) { p.row = 0; p.page++; } }
    void motion(int cmd) {
        nine = twelve = false; int n = cmd >> 3;
        if (!(cmd & 0x80)) { while (n-- > 0) line(); return; }
        int mask = 0x1000 >> (n & 15), d = 0; for (int i = 1; i <= lpp && !d; i++) if (fcb[(p.row + i) % lpp] & mask) d = i;
        while (d-- > 0) line(); nine = twelve = false;
    }
};
static bool valid(int cmd) { return (cmd & 0x80) ? (cmd & 0x78) != 0 && (cmd & 0x78) <= 0x60 : (cmd & 0x78) <= 0x18; }
static Paper decode(const std::string &s) {
    Paper p; std::string cur; auto put = [&] { while (!cur.empty() && cur.back() == ' ') cur.pop_back(); if (!cur.empty()) p.lines.push_back({ p.page, p.row, cur }); cur.clear(); };
    for (char c : s) { if (c == '\r') continue; if (c == '\n') { put(); p.row++; } else if (c == '\f') { put(); p.page++; p.row = 0; } else cur += c; }
    put(); return p;
}
static std::string slurp(const std::string &fn) { std::string s; if (FILE *f = fopen(fn.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static std::string hist;
static bool bad(const char *k, const std::string &d) { violation(fmt("1443:%s", k), d + " after" + hist.substr(hist.size() > 1200 ? hist.size() - 1200 : 0)); return false; }
static std::string text(const std::vector<uint8_t> &b, int n) { std::string s; for (int i = 0; i < n; i++) { int c = ebcdic_to_ascii[b[i]]; s += c >= 32 && c < 127 ? (char)c : '.'; } return s; }
static bool compare(const Paper &g, const Paper &w) {
    size_t i = 0; while (i < g.lines.size() && i < w.lines.size() && g.lines[i] == w.lines[i]) i++;
    auto sh = [](const Paper &p, size_t i) { return i < p.lines.size() ? fmt("page %d line %d \"%s\"", p.lines[i].page, p.lines[i].row + 1, p.lines[i].text.c_str()) : std::string("nothing"); };
    if (i < g.lines.size() || i < w.lines.size()) return bad("paper", fmt("printed line %zu is %s, wanted %s", i, sh(g, i).c_str(), sh(w, i).c_str()));
    if (g.page != w.page || g.row != w.row) return bad("position", fmt("the file ends at page %d line %d, wanted page %d line %d", g.page, g.row + 1, w.page, w.row + 1));
    tally("lines_compared", g.lines.size()); tally("pages", g.page); return true;
}
static std::vector<uint16_t> tape(Rng &r, int lpp) {
    std::vector<uint16_t> t(lpp, 0); int k = r.below(3);
    for (int c = 1; c <= 12; c++) { int n = k == 0 ? 1 : r.range(1, 4); while (n--) t[r.one_in(4) ? (r.one_in(2) ? 0 : lpp - 1) : r.below(lpp)] |= 0x1000 >> c; }
    return t;
}
static std::vector<uint8_t> data(Rng &r, int n) { std::vector<uint8_t> v; int k = r.below(4); for (int i = 0; i < n; i++) v.push_back(k == 0 ? r.below(256) : r.one_in(5) ? 0x40 : k == 1 ? 0xc1 + r.below(9) : k == 2 ? 0xf0 + r.below(10) : ebcdic_to_ascii[0] ? 0x81 + r.below(9) : 0x4b + r.below(5)); return v; }
static int gencmd(Rng &r, bool wr) { return (wr ? 1 : 3) | (r.one_in(2) ? r.below(4) << 3 : 0x80 | r.range(1, 12) << 3); }
static void unit(uint64_t ci, Rng &r) {
    bool paper = C().mode == "paper"; init_event(); for (int i = 0; i < 8; i++) chan[i] = nullptr; hist.clear(); uint64_t sig = paper;
    Channel c; c.rng = &r; c.ch = 0; c.sel = r.one_in(3); c.stack_pct = r.one_in(3) ? 30 : 0; c.slow_max = r.one_in(2) ? 0 : r.range(1, 3); c.err = [&](const char *k, const std::string &d) { bad(fmt("interface:%s", k).c_str(), d); };
    uint8_t a = r.below(256); std::string fn = C().scratch + "/paper.txt"; unlink(fn.c_str());
    std::string l = fmt("1443 %03x file=\"%s\" start", a, fn.c_str()); std::vector<char> lb(l.begin(), l.end()); lb.resize(lb.size() + 64);
    if (!load_line(lb.data()) || !chan[0]) { bad("create", "the printer could not be configured: " + l); return; }
    device_t *d = chan[0]; _1443_context *x = (_1443_context *)d->dev; Model m;
    if (!x->ready || !x->file) { bad("create", "the printer is not ready after START"); return; }
    if (r.one_in(4)) { m.fcb.assign(x->fcb, x->fcb + 66); if (x->lpp != 66) bad("create", "forms of other than 66 lines"); } else { m.lpp = r.one_in(2) ? 66 : r.range(3, 66); m.fcb = tape(r, m.lpp); }
    std::vector<uint16_t> own = m.fcb; x->lpp = m.lpp; own.shrink_to_fit(); x->fcb = own.data(); hist += fmt(" [%d lines, %s, stack %d]", m.lpp, c.sel ? "selector" : "multiplexor", c.stack_pct);
    int nops = paper ? r.range(5, 200) : r.range(3, 12); bool seen9 = false; c.reset();
    for (int k = 0; k < nops && !c.broken; k++) {
        if (paper) { // the carriage alone
            int cmd = gencmd(r, r.chance(60)); x->cmd = cmd; x->col = (cmd & 2) ? 0 : r.one_in(8) ? 120 : r.range(0, 119); x->status = 0; x->sense = 0;
            std::vector<uint8_t> b = data(r, x->col); for (int i = 0; i < x->col; i++) x->buf[i] = b[i];
            if (!(cmd & 2)) { m.p.print(text(b, x->col)); tally("lines"); } int page = m.p.page; m.motion(cmd); if (m.p.page != page) tally("page_turns"); tally((cmd & 0x80) ? "skips" : "spaces");
            int t = print_line(x); hist += fmt(" %02x/%zu", cmd, b.size()); sig = sig * 31 + cmd; if (t <= 0) { bad("time", fmt("motion of command %02x takes %d", cmd, t)); break; }
            if (x->row != m.p.row) { bad("row", fmt("command %02x leaves the forms at line %d, wanted %d", cmd, x->row + 1, m.p.row + 1)); break; }
            if ((cmd & 0x83) == 1) { if (((x->status & 1) != 0) != m.twelve) { bad("channel12", "unit exception wrong"); break; } if (((x->sense & 1) != 0) != m.nine) { bad("channel9", "sense wrong"); break; } }
            continue;
        }
        int op = r.below(12); int st = 0;
        if (op == 0) { int rc = c.tio(a, st); hist += " tio"; tally("test_ios"); if (!c.broken && (rc || st)) { bad("test-io", fmt("Test I/O got %d status %02x, wanted 0", rc, st)); break; } continue; }
        if (op == 2 && r.one_in(2)) { uint8_t cmd = r.pick<uint8_t>({ 0x01, 0x03, 0x04, 0x09, 0x0b, 0x1b, 0x89, 0x8b, 0x19 }); c.bad_command = true; hist += fmt(" badparity%02x", cmd); sig = sig * 31 + 77; int rc = c.select(a, cmd, st, false); if (c.broken) break; tally("bad_parity"); if (rc != 0 || st != 0x0e) { bad("bus-out-check", fmt("command %02x with wrong parity gave Start I/O %d status %02x", cmd, rc, st)); break; }
            rc = c.start(a, { { 4, 1, false } }); if (rc == 0 && !c.broken) c.finish(a); if (c.broken) break; Res &g = c.last(a)->res[0]; if (rc != 0 || g.in.size() != 1 || !(g.in[0] & 0x20)) { bad("bus-out-check", fmt("sense after a command with wrong parity is %02x", g.in.size() ? g.in[0] : 0)); break; } m.sense = 0; continue; }
        if (op == 3 && r.one_in(3)) { hist += " reset"; sig = sig * 31 + 78; c.reset(); m.sense = 0; tally("resets"); continue; }
        if (op == 1) { uint8_t o = a ^ (1 << r.below(8)); int rc = c.select(o, 1, st, false); tally("absent_units"); if (!c.broken && rc != 3) { bad("absent", fmt("address %02x is not there but got %d", o, rc)); break; } continue; }
        std::vector<Ccw> p; std::vector<std::array<int, 3>> want; std::vector<int> sns; int n = r.one_in(2) ? 1 : r.range(2, 4);
        for (int i = 0; i < n; i++) { Ccw y; int t = r.below(10); y.cc = i < n - 1; y.cmd = t < 5 ? gencmd(r, true) : t < 7 ? gencmd(r, false) : t == 7 ? 0x04 : r.below(256); if ((y.cmd & 7) == 0) y.cmd |= 1; if ((y.cmd & 15) == 8) y.cmd = 4;
            y.count = (y.cmd & 7) == 4 ? r.range(1, 3) : r.one_in(4) ? r.range(115, 125) : r.range(1, 110); y.out = data(r, y.count); p.push_back(y); hist += fmt("%s%02x/%d", i ? "," : " ", y.cmd, y.count); sig = sig * 131 + y.cmd * 7 + (y.count > 120); }
        for (auto &y : p) { // init, ended, taken
            int g = y.cmd & 7, s = -1;
            if (g == 4 && y.cmd == 4) { want.push_back({ 0, 0x0c, 1 }); s = m.sense; m.sense = 0; }
            else if ((g != 1 && g != 3) || !valid(y.cmd)) { m.sense = CMDREJ; want.push_back({ 0x0e, 0x0e, 0 }); sns.push_back(s); break; }
            else { m.sense = 0; int tk = g == 1 ? std::min(y.count, 120) : 0; if (g == 1) m.p.print(text(y.out, tk)); m.motion(y.cmd); int e = 0x0c; if (g == 1 && m.twelve) e |= 1; if (g == 1 && m.nine) { m.sense = CHAN9; e |= 2; }
                want.push_back({ g == 3 ? 8 : 0, e, tk }); if (e & 3) { sns.push_back(s); break; } }
            sns.push_back(s);
        }
        note("start"); int rc = c.start(a, p); note(""); if (c.broken) break; if (rc) { bad("start", fmt("Start I/O of the idle printer got %d", rc)); break; }
        int cue = 0; // busy while the carriage moves
        if (p.size() == 1 && r.one_in(2)) { Sub *s = c.find(a); while (s && !s->chend && s->working && !c.broken) { c.turn(); s = c.find(a); }
            if (s && s->chend && s->working && !c.broken) { c.idle(r.range(30, 2000)); if (c.down(CHAN_REQ_IN)) { int rc2 = c.select(a, 4, st, false); tally("busy_tries"); hist += "+busy"; if (c.broken) break; if (rc2 != 2 || st != (SNS_SMS | SNS_BSY)) { bad("busy", fmt("a select while the carriage moves got %d status %02x, wanted control unit busy", rc2, st)); break; } cue = SNS_CTLEND; } } }
        bool pend = p.size() == 1 && (p[0].cmd & 7) != 4 && !cue && r.one_in(3); int quiet = 0; for (uint64_t e = 0; e < 60000 && !c.broken; e++) { Sub *s = c.find(a); if (!s) break; if (pend && s->chend && !c.down(CHAN_REQ_IN)) break; if (!c.turn()) break; if (!c.down(CHAN_REQ_IN | CHAN_OPR_IN)) quiet = 0; else if (++quiet > 50) for (int q = 0; q < 97; q++) advance(); }
        if (pend && c.find(a)) { Sub *s = c.find(a); hist += "+tio"; int rc2 = c.tio(a, st); tally("pending_tries"); if (c.broken) break; int w = want[0][1] & ~8; if (rc2 || st != w) { bad("pending-status", fmt("Test I/O with status pending got %d status %02x, wanted %02x", rc2, st, w)); break; } s->res.back().ended |= st; s->active = s->working = false; c.idle(50); if (!c.down(CHAN_REQ_IN)) { bad("pending-status", "the request stays up after the status was taken by Test I/O"); break; } }
        if (c.broken) break; if (c.find(a)) { bad("stuck", "the operation does not end"); break; } c.idle(20);
        Sub *s = c.last(a); tally("commands", want.size());
        if (s->res.size() != want.size()) { bad("chain", fmt("%zu commands of the program were done, wanted %zu", s->res.size(), want.size())); break; }
        for (size_t i = 0; i < want.size() && !c.broken; i++) { Res &g = s->res[i]; std::string id = fmt("command %02x (%zu of the program): ", g.cmd, i + 1);
            if (g.init != want[i][0]) { bad("initial-status", id + fmt("initial status %x, wanted %x", g.init, want[i][0])); c.broken = true; break; }
            if (!(g.init & 0xb3) && (g.ended | cue) != (want[i][1] | cue)) { bad("ending-status", id + fmt("status %x, wanted %x", g.ended, want[i][1])); c.broken = true; break; }
            if (cue && !(g.ended & cue)) { bad("control-unit-end", id + "no control unit end after busy"); c.broken = true; break; }
            if (g.taken != want[i][2]) { bad("count", id + fmt("%d bytes moved, wanted %d", g.taken, want[i][2])); c.broken = true; break; }
            if (sns[i] >= 0 && (g.in.empty() || g.in[0] != sns[i])) { bad("sense", id + fmt("sense %02x, wanted %02x", g.in.empty() ? -1 : g.in[0], sns[i])); c.broken = true; break; }
            if (sns[i] > 0) tally("senses"); if (g.ended & 1) tally("unit_exceptions"); if (g.ended & 2) tally("unit_checks"); if ((g.cmd & 7) == 1 && g.taken) tally("lines"); sig = sig * 31 + g.ended; }
        if (c.broken) break;
        if (!c.async.empty()) { bad("extra-status", fmt("status %02x nobody waits for", c.async[0].second)); break; }
        if (x->row != m.p.row) { bad("row", fmt("the forms are at line %d, wanted %d", x->row + 1, m.p.row + 1)); break; }
    }
    if (!c.broken) { fflush(x->file); compare(decode(slurp(fn)), m.p); }
    (void)seen9; seen("histories", sig); if (ci % 211 == 0) sample(hist);
    fclose(x->file); free(x->file_name); free(x); free(d); chan[0] = nullptr; unlink(fn.c_str());
}
int main(int argc, char **argv) {
    init(argc, argv); log_level = 0; log_enable = 0; if (!C().verbose) { stderr = fopen("/dev/null", "w"); }
    cases(unit, 60); return finish();
}
