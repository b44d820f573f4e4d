// Tape images.
//   mode image: random histories of tape operations against a byte image kept by an independent encoder of
//               the three formats; what a read forward or backward must deliver is decoded from that image.
//   mode hostile: damaged and arbitrary files: every operation ends, stays inside its buffer and returns a status.
#include "vh.hpp"
extern "C" {
#include "tape.h"
#include "logger.h"
uint64_t step_count;
void tape_init();
}
using namespace vh;
typedef std::string Img;
static const char *TN[] = { "tap", "e11", "p7b" };
static void put4(Img &m, size_t at, uint32_t v) { if (m.size() < at + 4) m.resize(at + 4, 0); for (int i = 0; i < 4; i++) m[at + i] = (char)(v >> (8 * i)); }
static uint32_t get4(const Img &m, size_t at) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(uint8_t)m[at + i] << (8 * i); return v; }
static void put(Img &m, size_t at, const std::string &d) { if (m.size() < at + d.size()) m.resize(at + d.size(), 0); for (size_t i = 0; i < d.size(); i++) m[at + i] = d[i]; }
// writes a record at an offset, returns the offset behind it
static size_t enc_rec(Img &m, size_t at, int ty, const std::string &d) {
    if (ty == TYPE_P7B) { std::string x = d; x[0] |= (char)0x80; put(m, at, x); return at + x.size(); }
    put4(m, at, d.size()); put(m, at + 4, d); size_t e = at + 4 + d.size(); if (ty == TYPE_TAP && (d.size() & 1)) put(m, e++, std::string(1, 0)); put4(m, e, d.size()); return e + 4;
}
static size_t enc_mark(Img &m, size_t at, int ty) { if (ty == TYPE_P7B) { put(m, at, "\x8f"); return at + 1; } put4(m, at, 0); return at + 4; }
enum Kind { REC, MARK, END, UNDEF };
struct Item { Kind k; std::string d; size_t next; };
static Item fwd(const Img &m, size_t at, int ty) {
    if (at == m.size()) return { END, "", at };
    if (ty == TYPE_P7B) { if (!((uint8_t)m[at] & 0x80)) return { UNDEF, "", 0 }; if ((uint8_t)m[at] == 0x8f) return { MARK, "", at + 1 }; size_t e = at + 1; while (e < m.size() && !((uint8_t)m[e] & 0x80)) e++; std::string d = m.substr(at, e - at); d[0] &= 0x7f; return { REC, d, e }; }
    if (at + 4 > m.size()) return { UNDEF, "", 0 }; uint32_t n = get4(m, at); if (n == 0) return { MARK, "", at + 4 }; if (n == 0xffffffff) return { END, "", at };
    size_t p = ty == TYPE_TAP ? n & 1 : 0; if (n > 1000000 || at + 8 + n + p > m.size() || get4(m, at + 4 + n + p) != n) return { UNDEF, "", 0 }; return { REC, m.substr(at + 4, n), at + 8 + n + p };
}
static Item back(const Img &m, size_t at, int ty) {
    if (at == 0) return { END, "", 0 };
    if (ty == TYPE_P7B) { if ((uint8_t)m[at - 1] == 0x8f) return { MARK, "", at - 1 }; size_t b = at - 1; while (b > 0 && !((uint8_t)m[b] & 0x80)) b--; if (!((uint8_t)m[b] & 0x80) || (uint8_t)m[b] == 0x8f) return { UNDEF, "", 0 };
        if (at < m.size() && !((uint8_t)m[at] & 0x80)) return { UNDEF, "", 0 }; std::string d = m.substr(b, at - b); d[0] &= 0x7f; return { REC, d, b }; }
    if (at < 4) return { UNDEF, "", 0 }; uint32_t n = get4(m, at - 4); if (n == 0) return { MARK, "", at - 4 }; if (n == 0xffffffff) return { UNDEF, "", 0 };
    size_t p = ty == TYPE_TAP ? n & 1 : 0; if (n > 1000000 || at < 8 + n + p || get4(m, at - 8 - n - p) != n) return { UNDEF, "", 0 }; return { REC, m.substr(at - 4 - n - p, n), at - 8 - n - p };
}
static std::string rnd(Rng &r, int ty) {
    int n = r.one_in(12) ? r.range(30000, 70000) : r.one_in(6) ? r.range(2000, 9000) : r.one_in(6) ? r.range(1, 3) : r.one_in(10) ? (int)r.pick<int>({ 32768, 32764, 32760, 32767, 32769, 65536 }) : r.range(1, 300); std::string s(n, 0); uint64_t x = r.next();
    for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> 40); if (ty == TYPE_P7B) s[i] &= 0x7f; } if (ty == TYPE_P7B && s[0] == 0x0f) s[0] = 0x10; return s;
}
static std::string slurp(const std::string &n) { std::string s; FILE *f = fopen(n.c_str(), "rb"); if (!f) return s; static char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void spill(const std::string &n, const std::string &s) { FILE *f = fopen(n.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void image(uint64_t ci, Rng &r) {
    int ty = ci % 3; Img m; size_t at = 0; std::string fn = C().scratch + "/t.img"; unlink(fn.c_str()); std::string h; uint64_t sig = ty;
    struct _tape_buffer *t = (struct _tape_buffer *)calloc(1, sizeof *t); t->fd = -1; int nine = r.below(2); if (nine) t->format |= TRACK9; int den = 0; bool ring = true, on = false, lp = false; long frames = 0; bool fr_ok = true;
    auto bad = [&](const char *k, const std::string &d) { violation(fmt("tape:%s:%s", k, TN[ty]), d + " after" + h.substr(h.size() > 900 ? h.size() - 900 : 0)); };
    if (r.one_in(2)) { int n = r.range(1, 12); for (int i = 0; i < n; i++) at = r.one_in(5) ? enc_mark(m, at, ty) : enc_rec(m, at, ty, rnd(r, ty)); if (ty != TYPE_P7B && r.one_in(4)) put4(m, at, 0xffffffff); at = 0; spill(fn, m); h += fmt(" premade(%zu)", m.size()); }
    auto attach = [&](bool rg) { den = r.below(2); note("tape_attach"); int rc = tape_attach(t, (char *)fn.c_str(), ty, rg, den); note(""); h += rg ? " attach" : " attach-ro"; if (rc != 1) { bad("attach", "tape_attach refused a good file"); return false; } on = true; ring = rg; at = 0; lp = true; frames = 0; fr_ok = true;
        if (!tape_ready(t) || !tape_at_loadpt(t) || tape_ring(t) != ring || tape_9_track(t) != nine) bad("attach", fmt("state after attach: ready %d load point %d ring %d tracks9 %d", tape_ready(t), tape_at_loadpt(t), tape_ring(t), tape_9_track(t))); return true; };
    auto detach = [&] { note("tape_detach"); tape_detach(t); note(""); h += " detach"; on = false; if (tape_ready(t)) bad("detach", "drive ready without a tape"); std::string f = slurp(fn); tally("images_compared"); tally("bytes_compared", f.size());
        if (f != m) { size_t i = 0; while (i < f.size() && i < m.size() && f[i] == m[i]) i++; bad("file", fmt("file of %zu bytes differs from the image of %zu bytes at %zu", f.size(), m.size(), i)); return false; } return true; };
    if (!attach(true)) { free(t); return; }
    int nops = r.one_in(4) ? r.range(20, 60) : r.range(4, 20); int mode = r.below(3);
    for (int k = 0; k < nops; k++) {
        int op = r.below(20); if (mode == 1 && op < 14 && r.one_in(2)) op = 0; if (mode == 2 && op < 14 && r.one_in(2)) op = 8; sig = sig * 31 + op; int u = den ? 1 : 2;
        if (op < 5) { std::string d = rnd(r, ty); h += fmt(" w%zu", d.size()); note("write record"); int rc = tape_write_start(t); if (!ring) { note(""); if (rc != TAPE_STATUS_WRP) { bad("protect", fmt("write start on a protected tape gave %d", rc)); break; } continue; } if (rc != TAPE_STATUS_OK) { bad("write", fmt("write start gave %d", rc)); break; }
            bool ok = true; for (char c : d) if (tape_write_frame(t, (uint8_t)c) != TAPE_STATUS_OK) ok = false; rc = tape_finish_rec(t); note(""); if (!ok || rc != TAPE_STATUS_OK) { bad("write", fmt("write of %zu bytes gave %d", d.size(), rc)); break; } at = enc_rec(m, at, ty, d); frames += u * (long)d.size(); lp = false; tally("records_written"); tally(d.size() > 32760 ? "long_records" : "short_records");
        } else if (op == 5) { h += " wm"; note("write mark"); int rc = tape_write_mark(t); if (!ring) { note(""); if (rc != TAPE_STATUS_WRP) { bad("protect", fmt("write mark on a protected tape gave %d", rc)); break; } continue; } if (rc != TAPE_STATUS_OK) { bad("write-mark", fmt("gave %d", rc)); break; } if (r.one_in(2)) tape_finish_rec(t); note(""); at = enc_mark(m, at, ty); frames += IRG_LEN; lp = false; tally("marks_written");
        } else if (op < 11) { Item it = fwd(m, at, ty); if (it.k == UNDEF) { tally("undefined_skipped"); continue; } h += " rf"; note("read forward"); int rc = tape_read_forw(t); int want = it.k == REC ? TAPE_STATUS_OK : it.k == MARK ? TAPE_STATUS_MARK : TAPE_STATUS_EOT; if (rc != want) { note(""); bad("forward-status", fmt("read forward at offset %zu of %zu gave status %d, wanted %d", at, m.size(), rc, want)); break; }
            lp = false; if (tape_at_loadpt(t)) bad("load-point", "at load point after reading forward");
            if (it.k == MARK) { frames += IRG_LEN; uint8_t c; if (r.one_in(2) && tape_read_frame(t, &c) != TAPE_STATUS_MARK) { bad("forward-status", "frame read at a tape mark"); break; } if (r.one_in(2)) tape_finish_rec(t); tally("marks_read"); }
            if (it.k == END) tally("ends_seen");
            if (it.k == REC) { size_t lim = r.one_in(4) ? r.below(it.d.size() + 1) : it.d.size() + 1; size_t i; bool die = false; for (i = 0; i < lim; i++) { uint8_t c = 0x5a; rc = tape_read_frame(t, &c); if (i == it.d.size()) { if (rc != TAPE_STATUS_EOB) { bad("forward-length", fmt("status %d behind the last of %zu bytes", rc, it.d.size())); die = true; } break; } if (rc != TAPE_STATUS_OK) { bad("forward-length", fmt("status %d at byte %zu of %zu", rc, i, it.d.size())); die = true; break; } if (c != (uint8_t)it.d[i]) { bad("forward-data", fmt("byte %zu of %zu is %02x, wanted %02x", i, it.d.size(), c, (uint8_t)it.d[i])); die = true; break; } } tally("bytes_read", i);
                if (die) break; note("finish record"); rc = tape_finish_rec(t); note(""); if (rc != TAPE_STATUS_OK) { bad("finish", fmt("finish gave %d", rc)); break; } frames += u * (long)it.d.size(); tally("records_read_forward"); if (lim <= it.d.size()) tally("partial_reads"); }
            note(""); at = it.next;
        } else if (op < 15) { Item it = back(m, at, ty); if (it.k == UNDEF) { tally("undefined_skipped"); continue; } h += " rb"; note("read backward"); int rc = tape_read_back(t); int want = it.k == REC ? TAPE_STATUS_OK : it.k == MARK ? TAPE_STATUS_MARK : TAPE_STATUS_BOT; if (rc != want) { note(""); bad("backward-status", fmt("read backward at offset %zu of %zu gave status %d, wanted %d", at, m.size(), rc, want)); break; }
            if (it.k == END) { lp = true; if (!tape_at_loadpt(t)) bad("load-point", "not at load point although the tape begins here"); if (fr_ok && t->pos_frame != 0) { bad("frames", fmt("%ld frames from the load point at the load point", (long)t->pos_frame)); fr_ok = false; } tally("load_points_seen"); }
            if (it.k == MARK) { frames -= IRG_LEN; if (r.one_in(2)) tape_finish_rec(t); tally("marks_read"); }
            if (it.k == REC) { size_t n = it.d.size(), lim = r.one_in(4) ? r.below(n + 1) : n + 1; size_t i; bool die = false; for (i = 0; i < lim; i++) { uint8_t c = 0x5a; rc = tape_read_frame(t, &c); if (i == n) { if (rc != TAPE_STATUS_EOB) { bad("backward-length", fmt("status %d behind the last of %zu bytes", rc, n)); die = true; } break; } if (rc != TAPE_STATUS_OK) { bad("backward-length", fmt("status %d at byte %zu of %zu", rc, i, n)); die = true; break; } if (c != (uint8_t)it.d[n - 1 - i]) { bad("backward-data", fmt("byte %zu of %zu from the end is %02x, wanted %02x", i, n, c, (uint8_t)it.d[n - 1 - i])); die = true; break; } } tally("bytes_read", i);
                if (die) break; note("finish record"); rc = tape_finish_rec(t); note(""); if (rc != TAPE_STATUS_OK) { bad("finish", fmt("finish gave %d", rc)); break; } frames -= u * (long)n; tally("records_read_backward"); if (lim <= n) tally("partial_reads"); }
            note(""); at = it.next;
        } else if (op < 18) { h += " rew"; note("rewind"); if (tape_start_rewind(t) != TAPE_STATUS_OK) { bad("rewind", "start failed"); break; } int i, rc = 0; int f = r.range(1000, 100000); for (i = 0; i < 200000 && rc != TAPE_STATUS_BOT; i++) { rc = tape_rewind_frames(t, f); if (rc != TAPE_STATUS_OK && rc != TAPE_STATUS_BOT) break; } note(""); if (rc != TAPE_STATUS_BOT) { bad("rewind", fmt("rewind does not end: status %d", rc)); break; } if (!tape_at_loadpt(t)) bad("load-point", "not at load point after rewinding"); at = 0; lp = true; frames = 0; tally("rewinds");
        } else { if (!detach()) break; if (r.one_in(3)) { std::string no = C().scratch + "/none/x"; note("tape_attach of a missing file"); if (tape_attach(t, (char *)no.c_str(), ty, r.below(2), 0) != 0) bad("attach", "attached a file that cannot be opened"); if (tape_ready(t) || (t->format & (ONLINE | ATTACHED))) { bad("attach-failed", "drive online after a failed attach"); } note(""); tally("attach_failures"); h += " attach-missing"; } if (!attach(!r.one_in(3) || m.empty())) break; }
        if (tape_at_loadpt(t) != lp) { bad("load-point", fmt("load point %d, wanted %d", tape_at_loadpt(t), lp)); break; }
        sig = sig * 131 + at;
    }
    if (on) detach();
    free(t); seen("histories", sig); if (ci % 499 == 0) sample(std::string(TN[ty]) + h);
}
static void hostile(uint64_t ci, Rng &r) {
    int ty = r.below(3); Img m; size_t at = 0; std::string fn = C().scratch + "/h.img"; int n = r.below(8);
    for (int i = 0; i < n; i++) at = r.one_in(5) ? enc_mark(m, at, ty) : enc_rec(m, at, ty, rnd(r, ty));
    if (r.one_in(4)) { m.clear(); int k = r.below(200); for (int i = 0; i < k; i++) m += (char)(r.one_in(2) ? r.below(256) : r.below(4)); }
    int muts = r.below(6); for (int i = 0; i < muts; i++) { if (m.empty()) break; int q = r.below(4); size_t p = r.below(m.size()); if (q == 0) m[p] = (char)r.below(256); else if (q == 1) m.resize(p); else if (q == 2) m.insert(p, 1, (char)r.below(256)); else { uint32_t v = r.pick<uint32_t>({ 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x10000, 0x7ffe, 1, 3 }); put4(m, p & ~3u, v); } }
    spill(fn, m); struct _tape_buffer *t = (struct _tape_buffer *)malloc(sizeof *t); memset(t, 0, sizeof *t); t->fd = -1; log_enable = r.one_in(3); 
    note("tape_attach"); if (tape_attach(t, (char *)fn.c_str(), ty, r.below(2), r.below(2)) != 1) { violation("tape:attach:hostile", "attach"); free(t); return; }
    uint64_t sig = hash_str(m); int nops = r.range(2, 25); std::string h;
    for (int k = 0; k < nops; k++) { int op = r.below(8), rc = 0; uint8_t c; sig = sig * 31 + op; tally("operations");
        if (op < 3) { h += " rf"; note(fmt("read forward (%s)", TN[ty])); rc = tape_read_forw(t); int q = r.below(40); for (int i = 0; i < q && rc == 0; i++) rc = tape_read_frame(t, &c); note(fmt("finish (%s)", TN[ty])); rc = tape_finish_rec(t); }
        else if (op < 6) { h += " rb"; note(fmt("read backward (%s)", TN[ty])); rc = tape_read_back(t); int q = r.below(40); for (int i = 0; i < q && rc == 0; i++) rc = tape_read_frame(t, &c); note(fmt("finish (%s)", TN[ty])); rc = tape_finish_rec(t); }
        else if (op == 6) { h += " w"; note("write"); if ((rc = tape_write_start(t)) == 0) { int q = r.one_in(5) ? 40000 : r.range(1, 50); for (int i = 0; i < q; i++) tape_write_frame(t, (uint8_t)i); rc = tape_finish_rec(t); } if (r.one_in(3)) tape_write_mark(t); }
        else { h += " rew"; note("rewind"); tape_start_rewind(t); for (int i = 0; i < 1000000 && rc == 0; i++) rc = tape_rewind_frames(t, 1000); if (rc != TAPE_STATUS_BOT) violation("tape:rewind:hostile", "rewind of a damaged tape does not end" + h); }
        if (rc < -1 || rc > TAPE_STATUS_WRP) violation("tape:status:hostile", fmt("status %d", rc)); tally(fmt("status_%d", rc));
        int rot; note("reel image"); struct _tape_image *p = tape_supply_image(t, &rot), *q = tape_takeup_image(t, &rot); if (p < tape_position || p >= tape_position + 1300 || q < tape_position || q >= tape_position + 1300) violation("tape:reel", "reel image outside of the table");
    }
    note("tape_detach"); tape_detach(t); free(t); note(""); log_enable = 0; seen("histories", sig); tally("hostile_images"); if (ci % 499 == 0) sample(std::string(TN[ty]) + h);
}
int main(int argc, char **argv) {
    init(argc, argv); tape_init(); log_level = 0; log_enable = 0; std::string lg = C().scratch + "/log"; 
    if (C().mode == "hostile") { log_init((char *)"/dev/null"); log_level = -1; log_enable = 0; }
    if (!C().verbose) { stderr = fopen("/dev/null", "w"); }
    if (C().mode == "image") cases(image, 20); else cases(hostile, 10);
    return finish();
}
